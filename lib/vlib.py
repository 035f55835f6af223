"""Shared machinery of the checks: building /repo's sources, running TLC, reporting."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "clang++-19" if shutil.which("clang++-19") else "clang++"
CC = "clang-19" if shutil.which("clang-19") else "clang"
JOBS = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not run (exit code 2)."""


# ------------------------------------------------------------------ building
def _ccache_env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_COMPILERCHECK"] = "content"
    e["CCACHE_MAXSIZE"] = "5G"
    e["CCACHE_NOHASHDIR"] = "1"
    return e


def compile_one(src, flags, tag):
    h = hashlib.sha256((src + "\0" + " ".join(flags)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "obj", tag)
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src) + "." + h + ".o")
    comp = CC if src.endswith(".c") else CXX
    cmd = ["ccache", comp] if shutil.which("ccache") else [comp]
    cmd += flags + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, env=_ccache_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return obj


def compile_many(srcs, flags, tag):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda s: compile_one(s, flags, tag), srcs))


def link(objs, out, ldflags, shared=False):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [CXX] + (["-shared"] if shared else []) + ["-o", tmp] + objs + ldflags
    if os.path.exists("/usr/bin/ld.lld-19"):
        cmd.insert(1, "-fuse-ld=lld-19")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("link failed: %s\n%s" % (" ".join(cmd)[:3000], r.stdout[-6000:]))
    os.replace(tmp, out)
    return out


def repo(*p):
    return os.path.join(REPO, *p)


# ------------------------------------------------------------------ scratch
_scratch = []


def scratch(name):
    d = tempfile.mkdtemp(prefix="vrf-%s-" % name, dir=_scratch_root())
    _scratch.append(d)
    return d


def _scratch_root():
    r = os.path.join(BUILD, "run")
    os.makedirs(r, exist_ok=True)
    return r


def cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


# ------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, rc, out, states, distinct, wall):
        self.rc, self.out, self.states, self.distinct, self.wall = rc, out, states, distinct, wall
        self.violated = rc in (10, 11, 12, 13)   # assumption, deadlock, safety, liveness
        self.failed_to_run = rc not in (0, 10, 11, 12, 13)


def run_tlc(module, cfg_text, wd, workers=None, env=None, extra=None, timeout=800, heap="6g", deadlock=False,
            props=None):
    """Runs TLC on spec/<module>.tla (copied with all other modules into wd) with the given cfg text."""
    os.makedirs(wd, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copyfile(os.path.join(SPEC, f), os.path.join(wd, f))
    cfg = os.path.join(wd, module + ".cfg")
    with open(cfg, "w") as fh:
        fh.write(cfg_text)
    meta = os.path.join(wd, "states-%s" % module)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % timeout]
    cmd += ["-D%s" % p for p in (props or [])]
    cmd += ["-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", meta, "-workers", str(workers or JOBS), "-noGenerateSpecTE"]
    if not deadlock:
        cmd += ["-deadlock"]
    cmd += (extra or []) + [os.path.join(wd, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout + 60)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 99, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    shutil.rmtree(meta, ignore_errors=True)
    st = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated ", "generated, "))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    states, distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m2 and not m:
        states = int(m2[-1].replace(",", ""))
    return TLCResult(rc, out, states, distinct, time.time() - t)


def tlc_checked(*a, **k):
    """TLC that must at least run; on a model failure it is tried once more, then it is an error of the check."""
    r = run_tlc(*a, **k)
    if r.failed_to_run:
        r = run_tlc(*a, **k)
        if r.failed_to_run:
            raise CheckError("TLC failed (rc=%s):\n%s" % (r.rc, r.out[-5000:]))
    return r


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def tlc(self, r):
        self.add("states", r.distinct)
        self.add("transitions", r.states)

    def sample(self, s):
        self.coverage.setdefault("samples", [])
        if len(self.coverage["samples"]) < 6:
            self.coverage["samples"].append(s)

    def violation(self, what, payload, key=None):
        """Records a violation.  key identifies the failing history for the known-findings file."""
        if key is not None and key in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, key))
            return
        d = os.path.join(BUILD, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%03d.json" % len(self.violations))
        with open(p, "w") as fh:
            json.dump({"property": self.prop, "what": what, "key": key, "case": payload}, fh, indent=1, default=str)
        self.violations.append((what, p))

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": self.coverage, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        self.coverage.setdefault("samples", [])
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        cleanup()
        if self.violations:
            for w, p in self.violations[:20]:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + str(w).replace("\n", "\n  ")[:2000])
            return 1
        print("OK property=%s tier=%s %s" % (self.prop, self.tier,
              {k: v for k, v in self.coverage.items() if isinstance(v, int)}))
        return 0


def load_known(prop):
    """known_findings.txt: lines 'known: property=<id> key=<key> :: <description>' (and 'fixed: ...' lines)."""
    p = os.path.join(VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(fn):
    """Runs fn() -> exit code; anything unexpected is an error of the check, exit 2."""
    try:
        rc = fn()
    except CheckError as e:
        cleanup()
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        import traceback
        cleanup()
        traceback.print_exc()
        sys.exit(2)
    sys.exit(rc)


def run_harness(cmd, timeout, env=None, cwd=None, stdin=None):
    """Runs a harness built from /repo.  Returns (rc, stdout, stderr); rc None on timeout."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, env=e, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return None, str(x.stdout or ""), str(x.stderr or "")
