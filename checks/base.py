"""Common machinery of all checks: building, exporting, obligations, reports, evidence."""
import hashlib, json, os, subprocess, sys, time, fcntl, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TECS_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
LLVM = "/usr/lib/llvm-18"

BASEDEF = ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=3", "-DTECS_SPINLOCK_RETRY_YIELD=1"]
CONFIGS = {
    "checked": ["-std=c++20"],
    "unchecked": ["-std=c++20", "-DTECS_UNCHECKED_MODE"],
    "cxx17": ["-std=c++17"],
    "tracing": ["-std=c++20", "-DTECS_ENABLE_PERFORMANCE_TRACING"],
    "tracing17": ["-std=c++17", "-DTECS_ENABLE_PERFORMANCE_TRACING"],
    "header": ["-std=c++20", "-DTECS_HEADER_ONLY"],
    "header-unchecked": ["-std=c++20", "-DTECS_HEADER_ONLY", "-DTECS_UNCHECKED_MODE"],
    "unchecked-tracing": ["-std=c++20", "-DTECS_UNCHECKED_MODE", "-DTECS_ENABLE_PERFORMANCE_TRACING"],
    "other": ["-std=c++20", "-DVF_ALT"],
    "wide": ["-std=c++20", "-DVF_WIDE"],
    "other-unchecked": ["-std=c++20", "-DVF_ALT", "-DTECS_UNCHECKED_MODE"],
    "header17": ["-std=c++17", "-DTECS_HEADER_ONLY"],
}


class Broken(Exception):
    """The analysis itself cannot run (does not compile, anchor vanished)."""


class Shape(Broken):
    """The source is organised in a way the rules do not know: nothing can be decided, nothing is wrong."""


# drivers that call internals directly -> a driver of the public interface which must compile all the same
INTERNAL = {"locks": "tx", "trace": "ops", "trylock": "tx"}


class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def exporter():
    src = os.path.join(ROOT, "engine", "export.cc")
    out = os.path.join(BUILD, "export-" + sha(read(src)))
    if os.path.exists(out):
        return out
    with lock():
        if os.path.exists(out):
            return out
        llvm = [l for l in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so") if os.path.exists(l)]
        llvm += sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*"))
        tmp = out + f".{os.getpid()}"
        r = subprocess.run(["g++", "-std=c++17", "-O0", "-fno-rtti", f"-I{LLVM}/include", src, "-o", tmp,
                            f"{LLVM}/lib/libclang-cpp.so.18.1", llvm[0], f"-Wl,-rpath,{LLVM}/lib"],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken("exporter does not build: " + r.stderr[-800:])
        os.rename(tmp, out)
    return out


def include_flags():
    return ["-I" + os.path.join(REPO, "inc"), "-I" + os.path.join(REPO, "src")]


def repo_digest():
    h = []
    for base in ("inc", "src"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.append(p)
                h.append(read(p))
    return sha(*h)


_progs = {}


def export(driver, config, extra=()):
    """Type-check driver/<driver>.cc against the current headers and export the instantiated program."""
    from engine.absint import Prog
    key = (driver, config, tuple(extra))
    if key in _progs:
        return _progs[key]
    flags = CONFIGS[config] + BASEDEF + list(extra)
    src = os.path.join(ROOT, "driver", driver + ".cc")
    exe = exporter()
    k = sha(repo_digest(), read(src), read(os.path.join(ROOT, "driver", "common.hh")), flags, exe, REPO)
    out = os.path.join(BUILD, f"{driver}-{config}-{k}.json")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + f".{os.getpid()}"
        r = subprocess.run([exe, tmp, "--", "-resource-dir", LLVM + "/lib/clang/18", "-w", *include_flags(), *flags, src],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            msg = f"driver {driver} does not compile in configuration {config}: " + (r.stderr or r.stdout)[-1500:]
            if driver in INTERNAL:
                export(INTERNAL[driver], config)
                raise Shape(msg)
            raise Broken(msg)
        os.rename(tmp, out)
        for f in glob.glob(os.path.join(BUILD, "*.json")):
            try:
                if os.path.getmtime(f) < time.time() - 3600:
                    os.unlink(f)
            except OSError:
                pass
    try:
        os.utime(out)
    except OSError:
        pass
    p = Prog(out)
    p.name = f"{driver}/{config}"
    for r in p.records:
        if r.get("missing"):
            raise Shape(f"{r.get('q') or r.get('n') or r.get('s')} has no member in the role of {', '.join(r['missing'])}")
    _progs[key] = p
    return p


class Check:
    def __init__(self, pid, tier="quick"):
        self.id, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = {}  # rule -> [checked, violated, undecided]
        self.viol = []
        self.seen = set()
        self.und = []
        self.analysed = {}
        self.samples = []
        self.fns = set()
        self.assume = []

    thorough = property(lambda s: s.tier == "thorough")

    def count(self, k, n=1):
        self.analysed[k] = self.analysed.get(k, 0) + n

    def ok(self, rule, n=1):
        self.obl.setdefault(rule, [0, 0, 0])[0] += n

    def violation(self, rule, where, what, path=None):
        o = self.obl.setdefault(rule, [0, 0, 0])
        o[0] += 1
        o[1] += 1
        key = f"{rule} @ {where}"
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append(dict(rule=rule, where=where, what=what, path=path or [], key=key))

    def require(self, cond, rule, where, what, path=None):
        if cond is None:
            self.undecided(rule, where, what)
        elif cond:
            self.ok(rule)
        else:
            self.violation(rule, where, what, path() if callable(path) else path)
        return cond

    def undecided(self, rule, where, what=""):
        o = self.obl.setdefault(rule, [0, 0, 0])
        o[2] += 1
        if len(self.und) < 200:
            self.und.append(f"{rule}: {where}: {what}"[:400])

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def known(self):
        ks = []
        p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
        for l in open(p):
            if l.startswith("known: property=" + self.id + " key="):
                ks.append(l.split("key=", 1)[1].strip())
        return ks

    def finish(self, rules, explanation):
        known = self.known()
        new, old = [], []
        for v in self.viol:
            m = [k for k in known if k.startswith(v["key"])]
            (old if m else new).append(v)
        total = sum(o[0] for o in self.obl.values())
        und = sum(o[2] for o in self.obl.values())
        for rule, o in sorted(self.obl.items()):
            print(f"  rule {rule}: {o[0]} obligations, {o[1]} violated, {o[2]} undecided")
        for u in self.und[:10]:
            print("  UNDECIDED " + u)
        for k, n in sorted(self.analysed.items()):
            print(f"  {k}: {n}")
        for v in old:
            print(f"KNOWN-FINDING: property={self.id} {v['key']} {v['what']}")
        cov = dict(explanation=explanation, rules={r: dict(text=t, obligations=self.obl.get(r, [0, 0, 0])[0],
                                                           violated=self.obl.get(r, [0, 0, 0])[1],
                                                           undecided=self.obl.get(r, [0, 0, 0])[2])
                                                   for r, t in rules.items()},
                   analysed=self.analysed, obligations=total, discharged=total - len(self.viol),
                   functions=sorted(self.fns)[:200], functions_analysed=len(self.fns), samples=self.samples,
                   undecided=self.und[:50], technique="static analysis of the instantiated source (no execution)")
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.id, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        tmp = os.path.join(ROOT, "evidence", f".{self.id}.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(ROOT, "evidence", self.id + ".json"))
        rep = os.path.join(BUILD, "replay")
        for i, v in enumerate(new):
            os.makedirs(rep, exist_ok=True)
            p = os.path.join(rep, f"{self.id}-{i}.txt")
            with open(p, "w") as f:
                f.write(f"property {self.id}\nrule {v['rule']}: {rules.get(v['rule'], '')}\nconstruct {v['where']}\n{v['what']}\n")
                f.write("path:\n" + "\n".join("  " + str(x) for x in v["path"]) + "\n")
            print(f"  {v['rule']} at {v['where']}: {v['what']}")
            for x in v["path"][:14]:
                print("      " + str(x)[:220])
            print(f"VIOLATION property={self.id} replay={p}")
        if new:
            print(f"{self.id}: {len(new)} violation(s), {total} obligations, {und} undecided")
            return 1
        if total == 0 and und == 0:
            print(f"{self.id}: BROKEN: no obligation was generated")
            return 2
        if total == 0:
            print(f"{self.id}: UNDECIDED: no obligation of this property could be evaluated on this tree")
        print(f"{self.id}: holds on everything analysed ({total} obligations, {und} undecided, {time.time() - self.t0:.1f} s)")
        return 0


class Rec:
    """Obligations of many properties recorded by one scenario (picklable; merged into a Check by property id)."""

    def __init__(self):
        self.items = []  # (pid, rule, status, where, what, path)
        self.counts = {}
        self.fns = set()
        self.samples = []

    def ok(self, pid, rule, n=1):
        k = (pid, rule)
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, pid, rule, where, what, path=None):
        self.items.append((pid, rule, "v", where, what, [str(x) for x in (path or [])]))

    def undecided(self, pid, rule, where, what=""):
        self.items.append((pid, rule, "u", where, what, None))

    def require(self, pid, cond, rule, where, what, path=None):
        if cond is None:
            self.undecided(pid, rule, where, what)
        elif cond:
            self.ok(pid, rule)
        else:
            self.violation(pid, rule, where, what, path() if callable(path) else path)
        return cond

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def into(self, c):
        for k, n in self.counts.items():
            if isinstance(k, tuple):
                if k[0] == c.id:
                    c.ok(k[1], n)
            else:
                c.count(k, n)
        for pid, rule, st, where, what, path in self.items:
            if pid not in (c.id, "*"):
                continue
            if st == "v":
                c.violation(rule, where, what, path)
            else:
                c.undecided(rule, where, what)
        c.fns |= self.fns
        for s in self.samples:
            c.sample(s)


    def into_as(self, c, src, rule):
        """merge the obligations of another property (or one rule of it) that this one relies on"""
        for k, n in self.counts.items():
            if isinstance(k, tuple) and k[0] == src and rule in ("", k[1]):
                c.ok(f"{src} {k[1]}", n)
        for pid, r, st, where, what, path in self.items:
            if pid != src or rule not in ("", r):
                continue
            if st == "v":
                c.violation(f"{src} {r}", where, what, path)
            else:
                c.undecided(f"{src} {r}", where, what)


def pmap(fn, items):
    """fn over items in forked worker processes (the exported programs are shared copy-on-write)."""
    import multiprocessing as mp, threading
    items = list(items)
    global _pfn, _until
    _pfn = fn
    _until = time.time() + BUDGET
    if len(items) <= 1 or os.environ.get("VERIF_SERIAL"):
        return [_pcall(i) for i in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, len(items)), initializer=_winit) as p:
        pending = [p.apply_async(_pcall, (i,)) for i in items]
        out = []
        for i, r in zip(items, pending):
            try:
                out.append(r.get(max(_until + 60 - time.time(), 0.01)))
            except mp.TimeoutError:
                rec = Rec()
                rec.undecided("*", "analysis", str(i)[:100], "time budget used up")
                out.append(rec)
        return out


WANT = None  # properties being decided in this run
_pfn = None
_until = 0
BUDGET = int(os.environ.get("VERIF_BUDGET", "240"))  # seconds after which remaining scenarios are left undecided


def _winit():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(30000)


def _pcall(i):
    # recursion needs a big stack: run in a thread of its own
    import threading
    out = []
    if time.time() > _until:
        r = Rec()
        r.undecided("*", "analysis", str(i)[:100], "time budget used up")
        return r

    def go():
        try:
            out.append((True, _pfn(i)))
        except BaseException as e:
            import traceback
            out.append((False, traceback.format_exc()))

    t = threading.Thread(target=go)
    t.start()
    t.join()
    if not out[0][0]:
        if os.environ.get("VERIF_STRICT"):
            raise RuntimeError(out[0][1])
        # a construct the interpreter cannot cope with: this scenario is undecided, the others stand
        r = Rec()
        r.undecided("*", "analysis", str(i)[:100], " ".join(out[0][1].strip().splitlines()[-1:])[:200])
        return r
    return out[0][1]
