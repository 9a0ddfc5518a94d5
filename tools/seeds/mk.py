#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (edits to /repo's HEAD plus a demonstration)."""
import glob, json, os, subprocess, sys
R = "/verif/seeded"
SEEDS = {}
HEAD = r'''#include <Tecs.hh>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <thread>
#include <vector>
[[maybe_unused]] static void fail(const char *why) { std::printf("FAIL: %s\n", why); std::fflush(stdout); std::_Exit(1); }
[[maybe_unused]] static void check(bool ok, const char *why) { if (!ok) fail(why); }
[[maybe_unused]] static void sleepMs(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
// Ends the program with an error when the flag is not set in time.
template<typename F> [[maybe_unused]] static void waitFor(F done, const char *why, int ms = 15000) {
    for (int i = 0; i < ms / 5; i++) { if (done()) return; sleepMs(5); }
    fail(why);
}
'''
SH = '''#!/bin/bash
# Builds the program beside this script against the sources in the current folder and runs it.
d=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/tecs-demo-%(id)s || exit 3
g++ -std=%(std)s %(flags)s -pthread -I inc "$d/demo.cc" src/Tecs.cc -o /tmp/tecs-demo-%(id)s/demo || { rm -rf /tmp/tecs-demo-%(id)s; exit 3; }
timeout -k 5 120 /tmp/tecs-demo-%(id)s/demo
r=$?
rm -rf /tmp/tecs-demo-%(id)s
exit $r
'''

def seed(id, prop, needs, breaks, edits, demo, flags="-O1", std="c++20", sh=None):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags, std=std, sh=sh)

def patch(s):
    w = f"/tmp/mkseed.{os.getpid()}"
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "-f", "--detach", w, "HEAD"], check=True)
    try:
        for f, old, new, *n in s["edits"]:
            t = open(f"{w}/{f}").read()
            k = n[0] if n else 1
            assert t.count(old) == k, (f, old, t.count(old))
            open(f"{w}/{f}", "w").write(t.replace(old, new))
        return subprocess.run(["git", "-C", w, "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w], check=True)

if __name__ == "__main__":
    for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/s_*.py")):
        exec(compile(open(f).read(), f, "exec"))
    want = sys.argv[1:]
    for i, s in SEEDS.items():
        if want and i not in want:
            continue
        d = f"{R}/{i}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch(s))
        open(d + "/demo.sh", "w").write(s["sh"] or SH % dict(id=i, flags=s["flags"], std=s["std"]))
        os.chmod(d + "/demo.sh", 0o755)
        if s["demo"]:
            open(d + "/demo.cc", "w").write(HEAD + s["demo"])
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("wrote", i)
