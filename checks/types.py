"""C15, C16, C30: what the type system admits. Compile-fail and compile-pass witnesses generated from the permission rules."""
import concurrent.futures, itertools, re, shutil, tempfile
from . import base
from .base import *

COMPS = ("A", "B", "G")
GLOBALS = ("G",)

# ----- permission rules (independent of Tecs' own traits) -----
# a permission list: tuple of ("R", comps) ("W", comps) "RA" "WA" "AR" or ("L", name, permission list)


def R(*c):
    return ("R", c)


def Wr(*c):
    return ("W", c)


def L(*p):
    return ("L", "Lock", p)


def D(*p):
    return ("L", "DynamicLock", p)


def spell(p):
    if p == "RA":
        return "ReadAll"
    if p == "WA":
        return "WriteAll"
    if p == "AR":
        return "AddRemove"
    if p[0] == "L":
        return lock(p[2], p[1])
    return ("Read" if p[0] == "R" else "Write") + "<" + ", ".join(p[1]) + ">"


def plist(ps):
    return ", ".join(spell(p) for p in ps)


def lock(ps, kind="Lock", ecs="W"):
    return f"{kind}<{ecs}{''.join(', ' + spell(p) for p in ps)}>"


def can(ps, comps=None):
    """(readable, writable, add/remove) of a permission list"""
    r, w, ar = set(), set(), False
    for p in ps:
        if p == "RA":
            r |= set(comps or COMPS)
        elif p in ("WA", "AR"):
            r |= set(comps or COMPS)
            w |= set(comps or COMPS)
            ar = ar or p == "AR"
        elif p[0] == "L":
            a, b, c = can(p[2], comps)
            r |= a
            w |= b
            ar = ar or c
        else:
            r |= set(p[1])
            if p[0] == "W":
                w |= set(p[1])
    return frozenset(r), frozenset(w), ar


def subset(q, p):
    a, b = can(q), can(p)
    return a[0] <= b[0] and a[1] <= b[1] and (b[2] or not a[2])


PERMS = [
    (), (R(),), (R("A"),), (R("B"),), (R("A", "B"),), (R("G"),), ("RA",), (Wr(),), (Wr("A"),), (Wr("A", "B"),), (Wr("G"),), ("WA",), ("AR",),
    (R("A"), Wr("B")), (Wr("A"), R("A", "B")), (R("A"), Wr("A")), ("RA", Wr("A")), (R("B", "G"), Wr("A")), (L(R("A")),), (L(Wr("A")),), (L("AR"),),
    (L(L(Wr("A")), R("B")),), (D(Wr("A")),), (D("AR"),), ("WA", "AR"), (R("A"), "AR"), (Wr("A", "B", "G"),), (R("A", "B", "G"),), (L("WA"), R("A")),
]
SMALL = [PERMS[i] for i in (0, 2, 5, 6, 8, 10, 11, 12, 13, 16, 17, 19, 20, 26, 27)]

# ----- operations: (name, statement, needed) ; needed: None always, "never", or ("R"|"W", comp) / "AR" -----
OPS = [
    ("Get<const A>", "(void)e.template Get<const A>(l);", ("R", "A")),
    ("Get<A>", "(void)e.template Get<A>(l);", ("R", "A")),
    ("mutable reference from Get<A>", "A &x = e.template Get<A>(l); (void)x;", ("W", "A")),
    ("assignment through Get<A>", "e.template Get<A>(l) = a;", ("W", "A")),
    ("assignment through Get<const A>", "e.template Get<const A>(l) = a;", "never"),
    ("Get<A> with an explicit mutable return type", "(void)e.template Get<A, LT, A>(l);", ("W", "A")),
    ("Get<const A> with an explicit mutable return type", "(void)e.template Get<const A, LT, A>(l);", ("W", "A")),
    ("GetPrevious<A>", "(void)e.template GetPrevious<A>(l);", ("R", "A")),
    ("mutable reference from GetPrevious<A>", "A &x = e.template GetPrevious<A>(l); (void)x;", "never"),
    ("Set<A>(value)", "e.template Set<A>(l, a);", ("W", "A")),
    ("Set(value)", "e.Set(l, a);", ("W", "A")),
    ("Set<A>(arguments)", "e.template Set<A>(l, 1);", ("W", "A")),
    ("Set<A>()", "e.template Set<A>(l);", ("W", "A")),
    ("Get<const B>", "(void)e.template Get<const B>(l);", ("R", "B")),
    ("mutable reference from Get<B>", "B &x = e.template Get<B>(l); (void)x;", ("W", "B")),
    ("Set<B>(arguments)", "e.template Set<B>(l, 1);", ("W", "B")),
    ("Exists, Existed, Has, Had", "(void)e.Exists(l); (void)e.Existed(l); (void)e.template Has<A, B>(l); (void)e.template Had<B>(l);", None),
    ("Unset<A>", "e.template Unset<A>(l);", "AR"),
    ("Unset<A, B>", "e.template Unset<A, B>(l);", "AR"),
    ("Destroy of a constant id", "e.Destroy(l);", "AR"),
    ("Destroy", "m.Destroy(l);", "AR"),
    ("NewEntity", "m = l.NewEntity();", "AR"),
    ("Watch<EntityEvent>", "(void)l.template Watch<EntityEvent>();", "AR"),
    ("Watch<ComponentEvent<A>>", "(void)l.template Watch<ComponentEvent<A>>();", "AR"),
    ("Watch<ComponentEvent<G>>", "(void)l.template Watch<ComponentEvent<G>>();", "AR"),
    ("StopWatching", "l.StopWatching(o);", "AR"),
    ("Observer::Stop", "o.Stop(l);", "AR"),
    ("Observer::Poll", "(void)o.Poll(l, ev);", None),
    ("lists of entities", "(void)l.Entities(); (void)l.PreviousEntities(); (void)l.template EntitiesWith<A>(); (void)l.template PreviousEntitiesWith<B>();", None),
    ("instance and reference count", "(void)l.GetInstance(); (void)l.UseCount(); (void)l.ReadOnlySubset();", None),
    ("global Get<const G>", "(void)l.template Get<const G>();", ("R", "G")),
    ("global Get<G>", "(void)l.template Get<G>();", ("R", "G")),
    ("mutable reference from global Get<G>", "G &x = l.template Get<G>(); (void)x;", ("W", "G")),
    ("assignment through global Get<const G>", "l.template Get<const G>() = g;", "never"),
    ("global Get<G> with an explicit mutable return type", "(void)l.template Get<G, G>();", ("W", "G")),
    ("global GetPrevious<G>", "(void)l.template GetPrevious<G>();", ("R", "G")),
    ("mutable reference from global GetPrevious<G>", "G &x = l.template GetPrevious<G>(); (void)x;", "never"),
    ("global Set<G>(value)", "l.template Set<G>(g);", ("W", "G")),
    ("global Set<G>(arguments)", "l.template Set<G>(1);", ("W", "G")),
    ("global Unset<G>", "l.template Unset<G>();", "AR"),
    ("global Has, Had", "(void)l.template Has<G>(); (void)l.template Had<G>();", None),
    ("entity Get<G>", "(void)e.template Get<G>(l);", "never"),
    ("entity Get<const G>", "(void)e.template Get<const G>(l);", "never"),
    ("entity GetPrevious<G>", "(void)e.template GetPrevious<G>(l);", "never"),
    ("entity Set<G>(value)", "e.template Set<G>(l, g);", "never"),
    ("entity Set<G>(arguments)", "e.template Set<G>(l, 1);", "never"),
    ("entity Has<G>", "(void)e.template Has<G>(l);", "never"),
    ("entity Has<A, G>", "(void)e.template Has<A, G>(l);", "never"),
    ("entity Had<G>", "(void)e.template Had<G>(l);", "never"),
    ("entity Had<G, A>", "(void)e.template Had<G, A>(l);", "never"),
    ("entity Unset<G>", "e.template Unset<G>(l);", "never"),
    ("entity Unset<A, G>", "e.template Unset<A, G>(l);", "never"),
    ("EntitiesWith<G>", "(void)l.template EntitiesWith<G>();", "never"),
    ("PreviousEntitiesWith<G>", "(void)l.template PreviousEntitiesWith<G>();", "never"),
    ("global Get<A>", "(void)l.template Get<A>();", "never"),
    ("global Get<const A>", "(void)l.template Get<const A>();", "never"),
    ("global GetPrevious<A>", "(void)l.template GetPrevious<A>();", "never"),
    ("global Set<A>(value)", "l.template Set<A>(a);", "never"),
    ("global Set<A>(arguments)", "l.template Set<A>(1);", "never"),
    ("global Has<A>", "(void)l.template Has<A>();", "never"),
    ("global Has<G, A>", "(void)l.template Has<G, A>();", "never"),
    ("global Had<A>", "(void)l.template Had<A>();", "never"),
    ("global Had<A, G>", "(void)l.template Had<A, G>();", "never"),
    ("global Unset<A>", "l.template Unset<A>();", "never"),
    ("global Unset<G, A>", "l.template Unset<G, A>();", "never"),
    ("writing an element of Entities()", "l.Entities()[0] = e;", "never"),
    ("writing through an iterator of EntitiesWith<A>()", "*l.template EntitiesWith<A>().begin() = e;", "never"),
    ("writing through -> of an iterator", "l.Entities().begin()->index = 1;", "never"),
    ("writing through a reverse iterator", "*l.PreviousEntities().rbegin() = e;", "never"),
    ("writing through a sub-view", "l.Entities().subview(1)[0] = e;", "never"),
]


def allowed(op, ps):
    n = op[2]
    r, w, ar = can(ps)
    if n is None:
        return True
    if n == "never":
        return False
    if n == "AR":
        return ar
    return n[1] in (r if n[0] == "R" else w)


HEAD = """#include <Tecs.hh>
#include <type_traits>
namespace vf {
    struct A { int v; A() : v(0) {} A(int v) : v(v) {} };
    struct B { int v; B() : v(0) {} B(int v) : v(v) {} };
    struct G { int v; G() : v(0) {} G(int v) : v(v) {} };
}
TECS_GLOBAL_COMPONENT(vf::G);
using namespace vf;
using namespace Tecs;
using W = ECS<A, B, G>;
using W2 = ECS<A, B>;
"""


HEADN = len(HEAD.splitlines())


# ----- running the compiler front end -----
class Tu:
    """A translation unit of witnesses; line -> (rule, description, must_compile)"""

    def __init__(self, name):
        self.name, self.lines, self.w = name, HEAD.splitlines(), {}

    def add(self, text, rule, what, good):
        self.lines.append(text)
        self.w[len(self.lines)] = (rule, what, good)


CXX = {"clang": LLVM + "/bin/clang++", "gcc": "g++"}


def front(tu, flags, d, cc="clang", pch=None):
    """-> (set of witness lines with an error, first message per line, unattributed messages)"""
    f = os.path.join(d, re.sub(r"\W", "_", tu.name) + ".cc")
    with open(f, "w") as h:
        h.write("\n".join([""] * HEADN + tu.lines[HEADN:] if pch else tu.lines) + "\n")
    cmd = [CXX[cc], "-fsyntax-only", "-w", *include_flags(), *flags, f] + (["-include-pch", pch] if pch else [])
    cmd += ["-ferror-limit=0", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=0", "-fno-color-diagnostics"] if cc == "clang" else \
        ["-fmax-errors=0", "-fno-diagnostics-show-caret", "-ftemplate-backtrace-limit=0"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    bad, loose = {}, []
    msg, lines, ctx, inner = None, [], [], False

    def flush():
        if msg is None:
            return
        if lines:
            bad.setdefault(lines[0], msg)
        elif not bad or not inner:
            loose.append(msg)  # (clang repeats the instantiation backtrace only when it changes)

    for l in r.stderr.splitlines():
        m = re.match(r"(.*?):(\d+):(\d+): (fatal error|error|note|warning): (.*)", l)
        at = re.findall(re.escape(f) + r":(\d+)", l)
        if m and "error" in m[4]:
            flush()
            msg, lines = m[5][:160] + " (" + m[1].split("/inc/")[-1] + ":" + m[2] + ")", list(ctx)
            inner = m[1] != f
            if not inner:
                lines = [int(m[2])]
            ctx = []
        elif cc == "gcc" and at:
            ctx = [int(at[-1])]
        elif cc == "clang" and msg is not None and at and m and m[4] == "note" and ("requested here" in l or "in instantiation" in l or "in evaluation" in l
                                                                                    or "while" in l):
            lines += [int(x) for x in at]
    flush()
    if r.returncode and not bad and not loose:
        loose.append((r.stderr or "front end failed")[-200:])
    # the innermost frames come first; the witness is the last of them that is a witness line
    return bad, loose


def judge(rec, pid, tu, bad, loose, cfg, refuse_rule, accept_rule):
    for n, (rule, what, good) in tu.w.items():
        err = bad.get(n)
        if good:
            rec.require(pid, err is None, rule or accept_rule, what + f" [{cfg}]", f"must compile but is rejected: {err}",
                        [tu.lines[n - 1].strip()])
        else:
            rec.require(pid, err is not None, rule or refuse_rule, what + f" [{cfg}]", "must be rejected but compiles", [tu.lines[n - 1].strip()])
    other = [n for n in bad if n not in tu.w]
    if other or loose:
        rec.undecided(pid, accept_rule, f"{tu.name} [{cfg}]", "errors that belong to no witness: " + "; ".join([bad[n] for n in other] + loose)[:300])


def run_all(jobs, keep=False):
    """jobs: [(tu, flags, cfg, cc)] -> results in order"""
    d = tempfile.mkdtemp(prefix="types", dir=BUILD if os.path.isdir(BUILD) else None)
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            sub, pchs, broken = [], {}, set()
            with open(os.path.join(d, "head.hh"), "w") as h:
                h.write(HEAD)

            def prepare(flags):
                out = os.path.join(d, sha(*flags) + ".pch")
                r = subprocess.run([CXX["clang"], "-x", "c++-header", "-w", *include_flags(), *flags, os.path.join(d, "head.hh"), "-o", out], capture_output=True)
                return out if r.returncode == 0 else None

            cfgs = [tuple(j[1]) for j in jobs if j[3] == "clang"]
            cfgs = [c for c in set(cfgs) if cfgs.count(c) > 2]
            for c, out in zip(cfgs, ex.map(prepare, cfgs)):
                pchs[c] = out
                if out is None:
                    broken.add(c)
            for i, (tu, flags, cfg, cc) in enumerate(jobs):
                dd = os.path.join(d, str(i))
                os.mkdir(dd)
                sub.append(ex.submit(front, tu, flags, dd, cc, pchs.get(tuple(flags)) if cc == "clang" else None))
            # (None: not even the headers compile in this configuration, which is C30's business)
            return [None if tuple(j[1]) in broken and not keep else s.result() for j, s in zip(jobs, sub)]
    finally:
        shutil.rmtree(d)


# ----- C15 -----
def op_tus():
    out = []
    kinds = [[(ps, "Lock") for ps in PERMS], [(ps, "const Lock") for ps in ((Wr("A"),), (R("A"),), ("AR",))],
             [(ps, "DynamicLock") for ps in ((), (R("A"),), (Wr("A"),), ("WA",), ("AR",), (R("A", "G"), Wr("B")))]]
    for op, variants in itertools.product(OPS, kinds):
        tu = Tu(f"op {op[0]} {variants[0][1]}")
        for j, (ps, kind) in enumerate(variants):
            lt = lock(ps, kind)
            tu.add(f"void f{j}({lt} &l, const Entity &e, Entity &m, A &a, G &g, Observer<W, EntityEvent> &o, EntityEvent &ev) "
                   f"{{ using LT = std::remove_const_t<{lt}>; {op[1]} }}",
                   None, f"{op[0]} with {lt}", allowed(op, ps))
        out.append(tu)
    return out


def result_tu():
    tu = Tu("result types")
    for ps in PERMS:
        for kind in ("Lock", "DynamicLock"):
            lt = lock(ps, kind)
            r, w, ar = can(ps)
            dl = f"std::declval<const {lt} &>()"
            ent = "std::declval<const Entity &>()"
            exp = []
            if "A" in r:
                exp += [(f"{ent}.template Get<A>({dl})", "A &" if "A" in w else "const A &"), (f"{ent}.template Get<const A>({dl})", "const A &"),
                        (f"{ent}.template GetPrevious<A>({dl})", "const A &")]
            if "G" in r:
                exp += [(f"{dl}.template Get<G>()", "G &" if "G" in w else "const G &"), (f"{dl}.template Get<const G>()", "const G &"),
                        (f"{dl}.template GetPrevious<G>()", "const G &")]
            exp += [(f"{dl}.Entities()[0]", "const Entity &"), (f"*{dl}.template EntitiesWith<A>().begin()", "const Entity &")]
            for e, t in exp:
                tu.add(f"static_assert(std::is_same<decltype({e}), {t}>::value);", "result-type",
                       f"type of {e.replace('template ', '')}", True)
    # a read-only subset never yields mutable access
    for ps in PERMS:
        r, w, ar = can(ps)
        ro = f"decltype(std::declval<const {lock(ps)} &>().ReadOnlySubset())"
        tu.add(f"static_assert(std::is_same<{ro}, Lock<W, Read<{', '.join(c for c in COMPS if c in r)}>>>::value);", "result-type",
               f"ReadOnlySubset of {lock(ps)} has exactly its read permissions and nothing else", True)
    return tu


# ----- C16 -----
def conv_tus(full):
    out = []
    ps1 = PERMS if full else PERMS
    tu = Tu("conversion traits")
    for p in ps1:
        for q in ps1:
            ok = subset(q, p)
            P, Q = lock(p), lock(q)
            c = "" if ok else "!"
            same = P == Q
            conds = [f"{c}std::is_convertible<const {P} &, {Q}>::value", f"{c}std::is_constructible<{Q}, const {P} &>::value",
                     f"{c}{P}::has_permissions<{plist(q)}>()", f"{c}std::is_constructible<{Q}, const {lock(p, 'DynamicLock')} &>::value",
                     f"{c}std::is_constructible<{Q}, {P}>::value", f"{c}std::is_constructible<{Q}, {P} &>::value"]
            if not ok:
                conds += [f"!std::is_assignable<{Q} &, const {P} &>::value"]
            tu.add("static_assert(" + " && ".join(conds) + ");", "conversion", f"conversion of {P} to {Q} ({'a subset' if ok else 'not a subset'})", True)
    out.append(tu)
    tu = Tu("conversions between instances types")
    for p in (("AR",), ("WA",), ("RA",), ()):
        tu.add(f"static_assert(!std::is_constructible<Lock<W2>, const {lock(p)} &>::value && !std::is_constructible<{lock(p, ecs='W2')}, const {lock(p)} &>::value);",
               "conversion", f"{lock(p)} does not convert to a lock of another kind of instance", True)
    out.append(tu)
    for kind in ("subset", "dynamic", "argument"):
        for i, p in enumerate(SMALL):
            tu = Tu(f"{kind} from {lock(p)}")
            for q in PERMS:
                if kind == "subset":
                    st = f"void f(const {lock(p)} &l, {lock(q)} *) {{ (void)l.template Subset<{plist(q)}>(); }}"
                    what = f"Subset<{plist(q)}>() of {lock(p)}"
                elif kind == "dynamic":
                    st = f"void f(const {lock(p)} &l, {lock(q)} *) {{ {lock(q, 'DynamicLock')} d = l; (void)d; }}"
                    what = f"{lock(q, 'DynamicLock')} made from {lock(p)}"
                else:
                    st = f"void g({lock(q)}); void f(const {lock(p)} &l, {lock(q)} *) {{ g(l); }}"
                    what = f"passing {lock(p)} as {lock(q)}"
                tu.add(st.replace(" f(", f" f{len(tu.w)}(").replace(" g(", f" g{len(tu.w)}(").replace("{ g", "{ g"), "conversion", what, subset(q, p))
            out.append(tu)
    return out


# ----- C30 -----
ALLAPI = """
#include <sstream>
#include <string>
#include <unordered_map>
template<int N> struct Many { int v = 0; };
template<typename S> struct MakeMany;
template<size_t... I> struct MakeMany<std::index_sequence<I...>> { using type = ECS<Many<(int)I>...>; };
"""


def api_tu(tracing, header, perms, big):
    tu = Tu("whole API")
    tu.lines += ALLAPI.splitlines()

    def use(what, code, n=[0]):
        n[0] += 1
        tu.add(f"void use{n[0]}(W &w, const Entity &e, Entity &m, A &a, G &g) {{ {code} }}", "api-compiles", what, True)

    for ps in perms:
        use(f"StartTransaction<{plist(ps)}>", f"auto l = w.StartTransaction<{plist(ps)}>(); {lock(ps)} l2 = l; DynamicLock<W> d(l); "
            f"(void)d.TryLock<Read<A>>(); (void)d.TryLock<AddRemove>(); (void)d.TryLock<{plist(ps)}>(); (void)l.ReadOnlySubset(); (void)l.template Subset<>();"
            + ("" if header else "(void)l.GetTransactionId();"))
    full = ("AR",)
    for op in OPS:
        if op[2] == "never":
            continue
        use(op[0], f"auto l = w.StartTransaction<AddRemove>(); using LT = decltype(l); Observer<W, EntityEvent> o; EntityEvent ev; {op[1]} (void)sizeof(LT);")
    use("several instances and kinds of instances", "W w2; W2 w3; ECS<A> w4; auto l = w2.StartTransaction<WriteAll>(); auto l2 = w3.StartTransaction<AddRemove>(); "
        "auto l3 = w4.StartTransaction<ReadAll>(); m = l2.NewEntity(); m.Set<A>(l2, a); (void)w.GetInstanceId();")
    use("static queries of the instance", "static_assert(W::GetComponentCount() == 3); static_assert(W::GetComponentIndex<B>() == 1); "
        "static_assert(W::IsComponent<A>() && !W::IsComponent<int>()); (void)W::GetBytesPerEntity(); (void)W::GetComponentName<A>(); (void)w.GetInstanceId();")
    use("entity ids", "std::unordered_map<Entity, int> s; s[e] = 1; std::string t = std::to_string(e); (void)(e == m); (void)(e != m); (void)(e < m); "
        "(void)!e; (void)(bool)e; (void)(uint64_t)e; Entity x((uint64_t)5); Entity y(1u, 2u), z(1u, 2u, (uint8_t)3); "
        "(void)GenerationWithIdentifier(1, 2); (void)GenerationWithoutIdentifier(1); (void)IdentifierFromGeneration(1);")
    use("entity views", "auto l = w.StartTransaction<>(); EntityView v = l.Entities(); EntityView none; (void)none; for (auto x : v) (void)x; for (auto i = v.rbegin(); i != v.rend(); ++i) (void)*i; "
        "auto i = v.begin(); i += 1; i -= 1; (void)(i + 1); (void)(i - 1); i++; i--; ++i; --i; (void)i[0]; (void)i->index; (void)(i == v.end()); "
        "(void)v.size(); (void)v.empty(); (void)v[0]; (void)v.subview(1); (void)v.subview(1, 2);")
    use("observers", "Observer<W, EntityEvent> o; Observer<W, ComponentEvent<A>> oa; Observer<W, ComponentEvent<G>> og; "
        "{ auto l = w.StartTransaction<AddRemove>(); o = l.Watch<EntityEvent>(); oa = l.Watch<ComponentEvent<A>>(); og = l.Watch<ComponentEvent<G>>(); } "
        "{ auto l = w.StartTransaction<>(); EntityEvent ev; ComponentEvent<A> ea; ComponentEvent<G> eg; (void)o.Poll(l, ev); (void)oa.Poll(l, ea); (void)og.Poll(l, eg); (void)(bool)o; } "
        "{ auto l = w.StartTransaction<AddRemove>(); o.Stop(l); l.StopWatching(oa); og.Stop(l); }")
    use("locks as permissions of other locks", "auto l = w.StartTransaction<Write<A>, Read<B>>(); Lock<W, Read<A>> r = l; Lock<W, Lock<W, Write<A>>> n = l; "
        "(void)e.Get<const A>(r); (void)e.Get<A>(n); auto t = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();")
    for n in (64, 70) if big else ():
        use(f"an instance with {n} component types", f"using M = MakeMany<std::make_index_sequence<{n}>>::type; static M mw; auto l = mw.StartTransaction<AddRemove>(); DynamicLock<M> d = l; "
            f"(void)d.TryLock<Read<Many<3>>>(); (void)d.TryLock<Write<Many<{n - 1}>>>(); (void)d.TryLock<AddRemove>(); m = l.NewEntity(); m.Set<Many<{n - 1}>>(l); "
            f"(void)m.Get<Many<2>>(l); (void)m.Has<Many<1>, Many<{n - 1}>>(l); m.Destroy(l);")
    use("an instance with one component type", "using M = ECS<A>; M mw; auto l = mw.StartTransaction<AddRemove>(); m = l.NewEntity(); m.Set<A>(l, 1); DynamicLock<M> d = l; (void)d.TryLock<Write<A>>();")
    if tracing:
        use("performance tracing", "w.StartTrace(); PerformanceTrace t = w.StopTrace(); t.SetThreadName(\"x\"); (void)t.GetThreadName(); std::stringstream s; t.SaveToCSV(s); s << TraceEvent::Type::ReadLock;")
    return tu


API_CONFIGS = []
for _std in ("-std=c++17", "-std=c++20"):
    for _h in (0, 1):
        for _u in (0, 1):
            for _t in (0, 1):
                API_CONFIGS.append((_std, _h, _u, _t, 0))
for _std in ("-std=c++17", "-std=c++20"):
    for _h in (0, 1):
        API_CONFIGS.append((_std, _h, 0, 0, 1))


def api_flags(c):
    std, h, u, t, tracy = c
    fl = [std]
    if h:
        fl.append("-DTECS_HEADER_ONLY")
    if u:
        fl.append("-DTECS_UNCHECKED_MODE")
    if t:
        fl.append("-DTECS_ENABLE_PERFORMANCE_TRACING")
    if tracy:
        fl += ["-DTECS_ENABLE_TRACY", "-DTECS_TRACY_INCLUDE_LOCKS", "-DTECS_TRACY_INCLUDE_DETAILED_COMMIT", "-I" + os.path.join(ROOT, "driver", "stub")]
    return fl


def api_name(c):
    return " ".join([c[0][5:], "header-only" if c[1] else "library"] + ["unchecked"] * c[2] + ["tracing"] * c[3] + ["tracy"] * c[4])


LINKSRC = HEAD + """
#include <cstdio>
int use_%s(W &w) {
    W other;
    Observer<W, EntityEvent> o;
    { auto l = w.StartTransaction<AddRemove>(); o = l.Watch<EntityEvent>(); Entity e = l.NewEntity(); e.Set<A>(l, 1); l.Set<G>(2); }
    auto l = w.StartTransaction<Read<A>, Write<B>>();
    DynamicLock<W> d = l;
    int n = (int)w.GetInstanceId() + (int)other.GetInstanceId() + (int)std::to_string(*l.Entities().begin()).size() + (int)std::hash<Entity>{}(Entity());
    if (d.TryLock<Read<B>>()) n++;
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
    w.StartTrace();
    w.StopTrace().SaveToCSV(std::cout);
#endif
    return n;
}
"""


def link_check(rec, cfg, d):
    """several sources of one program: one definition of everything, and one shared copy of the process-wide state"""
    fl = api_flags(cfg)
    nm = api_name(cfg)
    srcs = []
    for i in ("one", "two"):
        p = os.path.join(d, i + ".cc")
        open(p, "w").write("#include <iostream>\n" + LINKSRC % i + ("int use_two(W &); int main() { W w; return use_one(w) + use_two(w); }\n" if i == "one" else ""))
        srcs.append(p)
    if not cfg[1]:
        srcs.append(os.path.join(REPO, "src", "Tecs.cc"))
    objs = []
    procs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, f"o{i}.o")
        objs.append(o)
        procs.append(subprocess.Popen(["g++", "-w", "-O0", "-c", *include_flags(), *fl, s, "-o", o], stderr=subprocess.PIPE, text=True))
    for s, p in zip(srcs, procs):
        e = p.communicate()[1]
        if p.returncode:
            rec.violation("C30", "api-compiles", f"{os.path.basename(s)} [{nm}]", "does not compile: " + e[-300:])
            return
        rec.ok("C30", "api-compiles")
    r = subprocess.run(["g++", *objs, "-o", os.path.join(d, "out"), "-pthread"], capture_output=True, text=True)
    msg = "; ".join(l.split(": ", 1)[-1] for l in r.stderr.splitlines() if "multiple definition" in l or "undefined reference" in l)[:300]
    rec.require("C30", r.returncode == 0, "links", f"program of {len(srcs)} sources [{nm}]", "does not link: " + (msg or r.stderr[-300:]))
    # process-wide variables: one copy
    for o in objs[:2]:
        out = subprocess.run(["nm", "-C", o], capture_output=True, text=True).stdout
        for l in out.splitlines():
            m = re.match(r"[0-9a-f ]* ([bBdDuVvUCR]) (Tecs::[\w:]*)$", l)
            if m:
                rec.require("C30", m[1] not in "bd", "shared-state", f"{m[2]} [{nm}]", "every source file gets its own copy of a process-wide variable")


RULES = {
    "C15": {"refused": "an operation the lock's permissions do not cover is rejected by the compiler",
            "accepted": "an operation the lock's permissions cover compiles (so that a rejection has the right reason)",
            "result-type": "access through a lock without write permission is to immutable data; views and lists are immutable"},
    "C16": {"conversion": "a lock converts to another exactly if the other's permissions are a subset of its own",
            "try-lock": "a run-time request yields a lock exactly if the transaction's permissions cover it",
            "lock-permissions": "no lock carries a permission its transaction does not have, and read-only views carry no write permission",
            "same-transaction": "a lock obtained at run time belongs to the same transaction and instance"},
    "C38": {"permission-queries": "the compile-time permission queries of every lock type and permission give exactly what the permission rules give",
            "subset-queries": "the subset queries are true exactly if every permission of the one is one of the other",
            "component-numbers": "every component of an instance has its own number below the count, in the order listed; other types are no components",
            "global-queries": "the queries for global components agree with the declarations",
            "component-names": "a component's declared name is the one given, and none by default"},
    "C30": {"api-compiles": "every operation compiles in every documented configuration",
            "links": "a program of several source files links in every configuration",
            "shared-state": "process-wide state has one copy in the whole program"},
}


def c15(rec, thorough):
    tus = op_tus()
    jobs = [(t, ["-std=c++20"], "c++20", "clang") for t in tus]
    res = [(result_tu(), ["-std=c++20"], "c++20", "clang")]
    if thorough:
        jobs += [(t, ["-std=c++17", "-DTECS_UNCHECKED_MODE"], "c++17 unchecked", "clang") for t in tus]
        jobs += [(t, ["-std=c++20", "-DTECS_HEADER_ONLY", "-DTECS_ENABLE_PERFORMANCE_TRACING"], "c++20 header-only tracing", "clang") for t in tus]
        res += [(result_tu(), ["-std=c++17", "-DTECS_UNCHECKED_MODE"], "c++17 unchecked", "clang"), (result_tu(), ["-std=c++20"], "c++20", "gcc")]
    for (tu, fl, cfg, cc), res1 in zip(jobs + res, run_all(jobs + res)):
        if res1 is None:
            rec.undecided("C15", "accepted", f"{tu.name} [{cfg}]", "the headers do not compile in this configuration")
            continue
        bad, loose = res1
        judge(rec, "C15", tu, bad, loose, cfg, "refused", "accepted")
        rec.count("witness programs", len(tu.w))
    rec.count("operations", len(OPS))
    rec.count("permission lists", len(PERMS))


def c16(rec, thorough):
    jobs = [(t, ["-std=c++20"], "c++20", "clang") for t in conv_tus(thorough)]
    if thorough:
        jobs += [(t, ["-std=c++17"], "c++17", "clang") for t in conv_tus(thorough)]
    for (tu, fl, cfg, cc), res1 in zip(jobs, run_all(jobs)):
        if res1 is None:
            rec.undecided("C16", "conversion", f"{tu.name} [{cfg}]", "the headers do not compile in this configuration")
            continue
        bad, loose = res1
        judge(rec, "C16", tu, bad, loose, cfg, "conversion", "conversion")
        rec.count("witness programs", len(tu.w))


# ----- C38 -----
def query_tus():
    tu = Tu("permission queries")
    tf = ("false", "true")

    def eq(e, v):
        return f"static_assert(({e}) == {tf[bool(v)]});"

    for ps in PERMS:
        r, w, ar = can(ps)
        for kind in ("Lock", "const Lock", "DynamicLock", "const DynamicLock"):
            lt = lock(ps, kind)
            for t in COMPS:
                tu.add(eq(f"is_read_allowed<{t}, {lt}>::value", t in r), "permission-queries", f"is_read_allowed<{t}> of {lt}", True)
                tu.add(eq(f"is_write_allowed<{t}, {lt}>::value", t in w), "permission-queries", f"is_write_allowed<{t}> of {lt}", True)
            tu.add(eq(f"is_add_remove_allowed<{lt}>::value", ar), "permission-queries", f"is_add_remove_allowed of {lt}", True)
        for p in ps:
            r1, w1, ar1 = can((p,))
            for t in COMPS:
                tu.add(eq(f"is_read_allowed<{t}, {spell(p)}>::value", t in r1), "permission-queries", f"is_read_allowed<{t}> of {spell(p)}", True)
                tu.add(eq(f"is_write_allowed<{t}, {spell(p)}>::value", t in w1), "permission-queries", f"is_write_allowed<{t}> of {spell(p)}", True)
            tu.add(eq(f"is_add_remove_allowed<{spell(p)}>::value", ar1), "permission-queries", f"is_add_remove_allowed of {spell(p)}", True)
    out = [tu]
    tu = Tu("subset queries")
    for p in PERMS:
        for q in PERMS:
            a, b = can(q), can(p)
            cs = [f"is_lock_subset<{t}, {lock(q)}, {lock(p)}>::value == {tf[(t not in a[0] or t in b[0]) and (t not in a[1] or t in b[1])]}" for t in COMPS]
            cs.append(f"{lock(p)}::has_permissions<{plist(q)}>() == {tf[subset(q, p)]}")
            tu.add("static_assert(" + " && ".join(cs) + ");", "subset-queries", f"subset queries of {lock(q)} in {lock(p)}", True)
    out.append(tu)
    tu = Tu("component lists")
    tu.lines += ["template<int N> struct Cm { int v = 0; };", "constexpr bool same(const char *a, const char *b) { return *a == *b && (*a == 0 || same(a + 1, b + 1)); }",
                 "struct Named { int v; };", "struct Gl { int v; };", "struct Late;", 'TECS_NAME_COMPONENT(Named, "a name");', "TECS_GLOBAL_COMPONENT(Gl);",
                 "TECS_GLOBAL_COMPONENT(Cm<7>);"]
    lists = [("Cm<0>",), ("Cm<0>", "Gl"), ("Gl", "Cm<0>", "Named"), ("Named", "Cm<1>", "Cm<0>", "Gl", "Cm<2>"), tuple(f"Cm<{i}>" for i in range(9)),
             tuple(f"Cm<{i}>" for i in range(70, -1, -1))]
    for cs in lists:
        e = f"ECS<{', '.join(cs)}>"
        n = f"ECS of {len(cs)} components {cs[0]}..{cs[-1]}"
        tu.add(f"static_assert({e}::GetComponentCount() == {len(cs)});", "component-numbers", f"number of components of an {n}", True)
        for i, c in enumerate(cs):
            tu.add(f"static_assert({e}::GetComponentIndex<{c}>() == {i} && {e}::IsComponent<{c}>());", "component-numbers", f"{c} in an {n}", True)
            g = c in ("Gl", "Cm<7>")
            tu.add(eq(f"is_global_component<{c}>::value", g), "global-queries", f"is_global_component<{c}>", True)
        for c in ("int", f"const {cs[0]}", f"{cs[0]} &", "Cm<99>", "Late"):
            tu.add(f"static_assert(!{e}::IsComponent<{c}>());", "component-numbers", f"{c} is no component of an {n}", True)
        some = any(c in ("Gl", "Cm<7>") for c in cs)
        every = all(c in ("Gl", "Cm<7>") for c in cs)
        tu.add(eq(f"contains_global_components<{', '.join(cs)}>::value", some), "global-queries", f"contains_global_components of {n}", True)
        tu.add(eq(f"all_global_components<{', '.join(cs)}>::value", every), "global-queries", f"all_global_components of {n}", True)
    tu.add("static_assert(all_global_components<Gl, Cm<7>>::value && all_global_components<Gl>::value && contains_global_components<Gl>::value && "
           "!contains_global_components<Cm<1>, Named>::value && !all_global_components<Gl, Cm<1>>::value);", "global-queries", "lists of global components", True)
    tu.add('static_assert(same(component_name<Named>::value, "a name") && same(component_name<Gl>::value, ""));', "component-names", "component_name", True)
    tu.add("static_assert(std::is_same<decltype(ECS<Named, Gl>::GetComponentName<Named>()), std::string>::value);", "component-names", "type of GetComponentName", True)
    out.append(tu)
    return out


def c38(rec, thorough):
    cfgs = [("c++20", ["-std=c++20"]), ("c++17 unchecked", ["-std=c++17", "-DTECS_UNCHECKED_MODE"])]
    if thorough:
        cfgs += [("header-only tracing", ["-std=c++20", "-DTECS_HEADER_ONLY", "-DTECS_ENABLE_PERFORMANCE_TRACING"])]
    jobs = [(t, fl, cfg, cc) for cfg, fl in cfgs for t in query_tus() for cc in (("clang", "gcc") if thorough else ("clang",))]
    for (tu, fl, cfg, cc), res1 in zip(jobs, run_all(jobs)):
        if res1 is None:
            rec.undecided("C38", "permission-queries", f"{tu.name} [{cfg}]", "the headers do not compile in this configuration")
            continue
        bad, loose = res1
        judge(rec, "C38", tu, bad, loose, cfg, "permission-queries", "permission-queries")
        rec.count("witness programs", len(tu.w))


def c30(rec, thorough):
    jobs = []
    for c in API_CONFIGS:
        main = c[1:] == (0, 0, 0, 0)
        tu = api_tu(c[3], c[1], PERMS if main or thorough else SMALL[::4], main or thorough)
        jobs.append((tu, api_flags(c), api_name(c), "clang"))
        if thorough:
            jobs.append((tu, api_flags(c), api_name(c) + " gcc", "gcc"))
    for (tu, fl, cfg, cc), (bad, loose) in zip(jobs, run_all(jobs, True)):
        for n in [n for n in bad if n not in tu.w]:
            loose.append(bad.pop(n))
        if loose:
            rec.violation("C30", "api-compiles", f"headers [{cfg}]", "; ".join(loose)[:300])
        judge(rec, "C30", tu, bad, [], cfg, "api-compiles", "api-compiles")
        rec.count("witness programs", len(tu.w))
        rec.count("configurations")
    link = [c for c in API_CONFIGS if (thorough or c[0] == "-std=c++20" and not c[2]) and not c[4]]
    d = tempfile.mkdtemp(prefix="link", dir=BUILD)
    try:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            def go(ic):
                i, c = ic
                os.mkdir(os.path.join(d, str(i)))
                r = Rec()
                link_check(r, c, os.path.join(d, str(i)))
                return r
            for r in ex.map(go, enumerate(link)):
                rec.counts.update({k: rec.counts.get(k, 0) + v for k, v in r.counts.items()})
                rec.items += r.items
    finally:
        shutil.rmtree(d)


def collect(thorough=False, note=None):
    os.makedirs(BUILD, exist_ok=True)
    rec = Rec()
    want = base.WANT or {"C15", "C16", "C30", "C38"}
    if "C15" in want:
        c15(rec, thorough)
    if "C16" in want:
        c16(rec, thorough)
        from . import trylock
        try:
            trylock.collect(rec, thorough)
        except base.Shape as e:
            rec.undecided("C16", "try-lock", "shape", str(e))
    if "C30" in want:
        c30(rec, thorough)
    if "C38" in want:
        c38(rec, thorough)
    return [rec]


ASSUME = {
    "C15": ["the permission rules documented in README.md and Tecs_permissions.hh", "casting away const is outside what a type system can prevent"],
    "C16": ["the permission rules documented in README.md and Tecs_permissions.hh"],
    "C30": ["the Tracy profiler's interface is represented by a stub header with the functions and macros Tecs uses"],
}
EXPLAIN = {
    "C15": "For every operation of the API and every kind of lock, one witness program that the compiler front end must accept or reject, as computed "
           "from the permission rules; a program rejected for one lock is accepted for another with the permission, so the reason is the permission.",
    "C16": "For every ordered pair of permission lists, witnesses for every way of converting a lock, compared with set inclusion of the permissions; "
           "run-time requests by abstract interpretation of TryLock for every pair.",
    "C38": "One compile-time assertion for every query and every permission list, lock type, pair of permission lists and component list of a family "
           "(up to 71 components), with the answer computed independently from the permission rules.",
    "C30": "A translation unit using every public operation is type-checked in every documented configuration; programs of several source files are "
           "compiled and linked (never run) and their symbol tables inspected for duplicated process-wide state.",
}
