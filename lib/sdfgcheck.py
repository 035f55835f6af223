from vlib import *
import glob, random

SYM = os.path.join(VERIF, "shim", "symengine")
ISL = os.path.join(VERIF, "shim", "isl")
FLAGS = ["-std=c++20", "-O0", "-g0", "-w", "-fPIC", "-I" + SYM, "-I" + ISL, "-I" + repo("sdfg/include"), "-I" + repo("opt/include"),
         "-I" + repo("arg-capture-io/include"), "-I" + repo("rtl/include"), "-I" + HARNESS]
LIBS = ["-lgmpxx", "-lgmp", "/usr/lib/x86_64-linux-gnu/libisl.so.23"]


def library_sources():
    r = []
    for d in ("sdfg/src", "opt/src"):
        for root, _, fs in os.walk(repo(d)):
            r += [os.path.join(root, f) for f in fs if f.endswith(".cpp")]
    r += glob.glob(repo("arg-capture-io/src/*.cpp"))
    return sorted(r)


def build_harness():
    objs = compile_many(library_sources() + [os.path.join(SYM, "shim.cpp")], FLAGS, "sdfg")
    h = compile_many([os.path.join(HARNESS, "sdfg_harness.cpp")], FLAGS, "sdfg")
    return link(h + objs, os.path.join(BUILD, "bin", "sdfg_harness"), LIBS)


def run_lines(exe, lines, timeout=600, n=None):
    """One harness process per core; results in order."""
    n = n or JOBS
    out = [None] * len(lines)

    def go(i):
        part = lines[i::n]
        if not part:
            return
        r = subprocess.run([exe], input="\n".join(json.dumps(x) for x in part) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout)
        if r.returncode != 0:
            raise CheckError("sdfg harness failed rc=%s %s" % (r.returncode, r.stderr[-1500:]))
        rs = [json.loads(x) for x in r.stdout.splitlines()]
        if len(rs) != len(part):
            raise CheckError("sdfg harness lost records")
        for k, x in zip(range(i, len(lines), n), rs):
            out[k] = x
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(go, range(n)))
    return out


# ------------------------------------------------------------------ equivalence of programs
NM = ((3, 2), (0, 1), (2, 4))


def parse_tuples(out, tag):
    """The tuples <<"tag", id, input, ...>> TLC printed (a tuple may be wrapped over several lines)."""
    o = re.sub(r"\s+", " ", out)
    return [(a.strip('"'), int(b)) for a, b in re.findall(r'<< ?"%s", ("?[\w:.+-]+"?), (\d+)' % tag, o)]


class Equivalence:
    """Collects cases (program before, program after, inputs) and has TLC compare what a caller sees."""

    def __init__(self, rep, fuel=900, heap="12g"):
        self.rep, self.fuel, self.heap, self.cases, self.meta = rep, fuel, heap, [], {}

    def add(self, cid, before, after, inputs, meta, any_order=True, fuel=None):
        from sdfggen import prep
        self.cases.append(dict(id=cid, P=prep(before), Q=prep(after), inputs=inputs, fuel=fuel or self.fuel, any=any_order))
        self.meta[str(cid)] = meta

    def run(self, timeout=800, chunk=4000):
        rep = self.rep
        bad, ran, skipped = [], 0, 0
        for i in range(0, len(self.cases), chunk):
            wd = scratch("equiv")
            f = os.path.join(wd, "cases.json")
            with open(f, "w") as fh:
                json.dump(self.cases[i:i + chunk], fh)
            r = tlc_checked("SdfgEquiv", "SPECIFICATION Spec\n", wd, env={"CASES": f}, heap=self.heap, timeout=timeout)
            if r.violated:
                raise CheckError("TLC stopped:\n" + r.out[-4000:])
            rep.tlc(r)
            ran += len(set(parse_tuples(r.out, "RUN")))
            skipped += len(set(parse_tuples(r.out, "SKIP")))
            bad += sorted(set(parse_tuples(r.out, "BAD")))
            shutil.rmtree(wd, ignore_errors=True)
        want = sum(len(c["inputs"]) for c in self.cases)
        if ran + skipped != want:
            raise CheckError("TLC judged %d of %d runs\n%s" % (ran + skipped, want, r.out[-3000:]))
        rep.add("programs_compared", len(self.cases))
        rep.add("runs_compared", ran)
        rep.add("runs_undefined_before", skipped)
        by = {c["id"]: c for c in self.cases}
        seen = {}
        for cid, inp in bad:
            seen.setdefault(cid, []).append(inp)
        for cid, inps in seen.items():
            m = self.meta[cid]
            c = by[cid] if cid in by else by[int(cid)]
            rep.violation("%s: the result differs on inputs %s" % (m.get("what", cid), [c["inputs"][k - 1]["v"] for k in inps][:3]),
                          dict(meta=m, inputs=[c["inputs"][k - 1] for k in inps]), key=m.get("key"))
        return bad


def run_programs(rep, exe, items, eq, timeout=700):
    """items: dicts with id, prog, acts, inputs, what[, key].  Failing actions are violations; changed programs go to eq."""
    rs = run_lines(exe, [dict(id=x["id"], prog=x["prog"], acts=x["acts"]) for x in items], timeout=timeout)
    for x, r in zip(items, rs):
        rep.add("programs", 1)
        if "crash" in r or "error" in r:
            rep.violation("%s: %s" % (x["what"], r.get("crash") or r.get("error")), dict(prog=x["prog"], acts=x["acts"], result=str(r)[:2000]),
                          key=x.get("key"))
            continue
        if "after" not in r:
            rep.add("unsupported", 1)
            continue
        ap = [s for s in r["steps"] if s.get("applied")]
        rep.add("actions_applied", len(ap))
        for s in ap:
            n = s["act"].get("name", s["act"]["a"])
            d = rep.coverage.setdefault("applied", {})
            d[n] = d.get(n, 0) + 1
        if r["before"] == r["after"]:
            rep.add("unchanged", 1)
            continue
        eq.add(x["id"], r["before"], r["after"], x["inputs"], dict(what=x["what"], key=x.get("key"), prog=x["prog"], acts=x["acts"]))
    return rs
