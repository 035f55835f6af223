"""Writes /verif/seeded/<id>/ from an edit of a scratch worktree, and checks a seed (patch, build, tests, demo)."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
W = "/tmp/seedw"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def worktree():
    if not os.path.isdir(W):
        r = sh("git clone -q /repo %s" % W)
        assert r.returncode == 0, r.stdout
    sh("git -C %s fetch -q && git -C %s reset -q --hard && git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C %s reset -q --hard" % (W, W, W, W))


DEMO = r'''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
CXX=$(command -v clang++-19 || command -v clang++ || command -v g++)
CC=$(command -v clang-19 || command -v clang || command -v gcc)
%s
'''
GRAPH = '''$CXX -std=c++20 -O1 -w -Isdfg/include "$here/demo.cpp" sdfg/src/graph/*.cpp -o "$tmp/demo" || exit 9
cd "$tmp" && timeout 120 ./demo'''
CAPTURE = '''$CXX -std=c++20 -O1 -w -Iarg-capture-io/include -Irtl/include "$here/demo.cpp" arg-capture-io/src/*.cpp rtl/src/capture.cpp -o "$tmp/demo" || exit 9
cd "$tmp" && timeout 120 ./demo > out.txt; rc=$?; grep -v DEBUG out.txt; exit $rc'''
INSTR = '''$CC -O1 -w -fPIC -shared "$here/papi.c" -o "$tmp/papi.so" || exit 9
$CXX -std=c++20 -O1 -w -Irtl/include "$here/demo.cpp" rtl/src/instrumentation.cpp -o "$tmp/demo" -ldl -lpthread || exit 9
export DAISY_PAPI_PATH="$tmp/papi.so" __DAISY_PAPI_VERSION=0x07000000 __DAISY_INSTRUMENTATION_FILE="$tmp/trace.json"
cd "$tmp" && timeout 120 ./demo || exit 1
exec python3 "$here/judge.py" "$tmp/trace.json"'''
RPC = '''$CXX -std=c++20 -O1 -w -Irpc/include -Isdfg/include "$here/demo.cpp" rpc/src/passes/rpc/rpc_context.cpp rpc/src/passes/rpc/daisytuner_rpc_context.cpp rpc/src/util/utils_curl.cpp -lcurl -o "$tmp/demo" || exit 9
unset DOCC_JOB_TOKEN DOCC_ACCESS_TOKEN RPC_SERVER http_proxy HTTP_PROXY
export HOME="$tmp/home"; mkdir -p "$HOME/.config/docc"
cd "$tmp" && timeout 120 ./demo'''
PAPI = r'''
static int run[100000], n, alive[100000], nev[100000]; static long long base_[100000], last_[100000];
long long the_clock = 0, the_work = 0;
int PAPI_library_init(int v) { return v; }
const char* PAPI_strerror(int e) { return "error"; }
int PAPI_create_eventset(int* s) { if (*s != -1) return -1; alive[n] = 1; nev[n] = 0; *s = n++; return 0; }
int PAPI_add_named_event(int s, const char* e) { if (s < 0 || s >= n || !alive[s] || run[s]) return -1; nev[s]++; return 0; }
int PAPI_start(int s) { if (s < 0 || s >= n || !alive[s] || run[s] || !nev[s]) return -1; run[s] = 1; base_[s] = the_work; return 0; }
int PAPI_read(int s, long long* v) { if (s < 0 || s >= n || !alive[s]) return -1; for (int i = 0; i < nev[s]; i++) v[i] = (run[s] ? the_work - base_[s] : last_[s]) * (i + 1); return 0; }
int PAPI_stop(int s, long long* v) { if (s < 0 || s >= n || !alive[s] || !run[s]) return -1; PAPI_read(s, v); last_[s] = the_work - base_[s]; run[s] = 0; return 0; }
int PAPI_reset(int s) { if (s < 0 || s >= n || !alive[s]) return -1; base_[s] = the_work; return 0; }
int PAPI_cleanup_eventset(int s) { if (s < 0 || s >= n || !alive[s] || run[s]) return -1; nev[s] = 0; return 0; }
int PAPI_destroy_eventset(int* s) { if (*s < 0 || *s >= n || !alive[*s] || nev[*s]) return -1; alive[*s] = 0; *s = -1; return 0; }
long long PAPI_get_real_nsec(void) { return the_clock; }
int running_sets(void) { int k = 0; for (int i = 0; i < n; i++) k += alive[i] && run[i]; return k; }
int alive_sets(void) { int k = 0; for (int i = 0; i < n; i++) k += alive[i]; return k; }
'''
INSTR_PRE = r'''
#include <daisy_rtl/daisy_rtl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <thread>
#include <vector>
#include <dlfcn.h>
static long long *C, *W; static int (*running)(), (*alive)();
static void papi() {
    void* h = dlopen(getenv("DAISY_PAPI_PATH"), RTLD_NOW | RTLD_GLOBAL);
    C = (long long*) dlsym(h, "the_clock"); W = (long long*) dlsym(h, "the_work");
    running = (int (*)()) dlsym(h, "running_sets"); alive = (int (*)()) dlsym(h, "alive_sets");
    *C = 1000000;
}
static void work(long us, long w) { *C += us * 1000; *W += w; }
static size_t reg(const std::string& uuid, int line = 1, __daisy_event_set k = __DAISY_EVENT_SET_CPU) {
    static __daisy_metadata_t m; memset(&m, 0, sizeof m);
    m.file_name = "/src/a.c"; m.function_name = "f"; m.line_begin = line; m.line_end = line + 1;
    m.sdfg_name = "s"; m.sdfg_file = "s.json"; m.element_type = "map"; m.target_type = "t"; m.element_id = line;
    m.num_loops = 2; m.num_maps = 1; m.max_depth = 2; m.loopnest_index = 0;
    m.region_uuid = strdup(uuid.c_str());
    return __daisy_instrumentation_init(&m, k);
}
#define enter __daisy_instrumentation_enter
#define exit_ __daisy_instrumentation_exit
#define fin __daisy_instrumentation_finalize
'''


def write(sid, prop, edits, needs, breaks, kind, files):
    worktree()
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) >= 1, (sid, f, old)
        assert s.count(old) == 1, (sid, "ambiguous", f, old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % W).stdout
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % kind)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
    sh("git -C %s reset -q --hard" % W)


def original_lines(sid):
    """Are the removed lines original ones?  (blame on the base commit)"""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    return base


def check(sid, run_check=True):
    d = os.path.join(SEED, sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    res = {}
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    res["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(a.stdout)
        return {"apply": "failed"}
    try:
        res["build"] = sh("bash /opt/vp/build.sh").returncode
        sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        t = json.load(open("/tmp/seed_t.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        stable = b.get("stable") or b.get("passed") or b.get("tests")
        if isinstance(stable, dict):
            stable = list(stable)
        passed = set(t["passed"] if isinstance(t["passed"], list) else [])
        res["tests_ok"] = all(x in passed for x in stable)
        res["demo_bug"] = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo").returncode
        if run_check:
            r = sh("timeout 900 python3 %s/checks/%s.py" % (ROOT, prop))
            res["check"] = r.returncode
            if r.returncode != 1:
                print(r.stdout[-800:])
    finally:
        sh("git -C /repo checkout -- .")
    return res


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(SEED))
    for i in ids:
        r = check(i)
        ok = r.get("demo_clean") == 0 and r.get("demo_bug") not in (0, 9, None) and r.get("tests_ok") and r.get("build") == 0
        print(i, "VALID" if ok else "INVALID", "CAUGHT" if r.get("check") == 1 else "MISSED", r, flush=True)
    sh("bash /opt/vp/build.sh")
