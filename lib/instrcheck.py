from vlib import *
import random

FLAGS = ["-std=c++20", "-g1", "-O1", "-fPIC", "-w", "-I" + repo("rtl/include")]


def build_harness():
    src = repo("rtl/src")
    srcs = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".cpp") and f != "capture.cpp"]
    objs = compile_many(srcs + [os.path.join(HARNESS, "instr_harness.cpp")], FLAGS, "instr")
    exe = link(objs, os.path.join(BUILD, "bin", "instr_harness"), ["-ldl", "-lpthread"])
    fo = compile_many([os.path.join(HARNESS, "fake_papi.c")], ["-O1", "-fPIC", "-w"], "instr")
    so = link(fo, os.path.join(BUILD, "bin", "fake_papi.so"), ["-lpthread"], shared=True)
    return exe, so


GENCFG = """SPECIFICATION GSpec
INVARIANTS Dump TypeOK Charged Lifo
%(props)s
CONSTANTS
 CacheSize = %(cache)d
 SIM = %(sim)s
 L = %(L)d
 Regs = {%(regs)s}
 Threads = {%(threads)s}
 Mets_ = {%(mets)s}
 Vals_ = %(vals)s
 Overlap = %(overlap)d
"""
J = lambda xs: ", ".join(str(x) for x in xs)
Q = lambda xs: ", ".join('"%s"' % x for x in xs)


def gen(rep, wd, name, L, regs, threads=(0,), mets=(), vals=(), overlap=2, simulate=None, cache=10):
    cfg = GENCFG % dict(sim="TRUE" if simulate else "FALSE", L=L, regs=J(regs), threads=J(threads), mets=Q(mets),
                        vals="{%s}" % J([v + 50 for v in vals]), overlap=overlap, cache=cache,
                        props="" if simulate else "PROPERTY Stable")
    extra = []
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(L * 4), "-seed", str(rep.seed * 37 + L)]
    r = tlc_checked("InstrGen", cfg, os.path.join(wd, name), extra=extra, workers=1 if simulate else None)
    if r.violated:
        raise CheckError("the instrumentation specification violates its own properties\n" + r.out[-3000:])
    rep.tlc(r)
    out, seen = [], set()
    for line in r.out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            s = json.loads(json.loads(line)[2:])
            k = json.dumps(s[:-1] if simulate else s)
            if k not in seen:
                seen.add(k)
                out.append(s)
    return out


# ------------------------------------------------------------------ regions
PLAIN = ["main", "kernel_gemm", "/home/u/p/main.c", "rel/dir/f.py", "sdfg", "MAP", "CPU_PARALLEL"]
WILD = ['a"b', "back\\slash", "tab\there", "new\nline", "\x01ctl\x1f", "ünï→code", "{}[],:", "", "%s%n", "C:\\x\\y.c",
        "operator\"\"_km<\"x\">", "/a b/c\"d/e.c", "\\u0041", "\\\"", "\x7f", "it's", "null", "/trailing/"]
STRF = ["file_name", "function_name", "sdfg_name", "sdfg_file", "arg_capture_path", "features_file", "opt_report_file",
        "element_type", "target_type"]
NUMF = ["num_loops", "num_maps", "num_fors", "num_whiles", "max_depth"]
BOOLF = ["is_perfectly_nested", "is_perfectly_parallel", "is_elementwise", "has_side_effects"]
KCPU, KCUDA, KNONE = 0, 1, 2


def region(i, rnd, kind, wild):
    r = {"uuid": "r%d_%d" % (i, i * 7), "kind": kind}
    for f in STRF:
        if wild:
            r[f] = rnd.choice(WILD + PLAIN + [None, None])
        else:
            r[f] = "%s_%s_%d" % (rnd.choice(PLAIN), f, i)
    r["line_begin"] = i * 10 + 1
    r["line_end"] = i * 10 + rnd.randint(1, 9)
    r["column_begin"] = rnd.randint(0, 90)
    r["column_end"] = rnd.randint(0, 90)
    r["element_id"] = i * 7
    r["loopnest_index"] = rnd.choice([-1, 0, 1, i])
    for f in NUMF:
        r[f] = rnd.randint(0, 9)
    for f in BOOLF:
        r[f] = rnd.random() < 0.5
    return r


def expected_md(r):
    """What an event of this region has to say about it (projection of the descriptor)."""
    s = lambda f: r[f] or ""
    md = {"name": "%s [L%d-%d]" % (s("function_name"), r["line_begin"], r["line_end"]),
          "function": s("function_name"), "file": s("file_name"), "module": s("file_name").rsplit("/", 1)[-1],
          "from": "%d:%d" % (r["line_begin"], r["column_begin"]), "to": "%d:%d" % (r["line_end"], r["column_end"]),
          "target_type": s("target_type")}
    for f in STRF[2:7]:
        md[f] = s(f)
    if r["sdfg_name"] is not None and r["sdfg_file"] is not None:
        md["element"] = "%d:%s" % (r["element_id"], s("element_type"))
        md["loop"] = json.dumps([r["loopnest_index"]] + [r[f] for f in NUMF] + [r[f] for f in BOOLF])
    else:
        md["element"] = md["loop"] = "-"
    return md


def observed_md(e):
    a = e["args"]
    d = a["docc"]
    sr = a["source_ranges"]
    if len(sr) != 1:
        return {"bad": "source_ranges"}
    md = {"name": e["name"], "function": a["function"], "file": sr[0]["file"], "module": a["module"],
          "from": "%d:%d" % (sr[0]["from"]["line"], sr[0]["from"]["col"]),
          "to": "%d:%d" % (sr[0]["to"]["line"], sr[0]["to"]["col"]), "target_type": a["target_type"]}
    for f in STRF[2:7]:
        md[f] = d[f]
    if "element_id" in d:
        li = d["loop_info"]
        md["element"] = "%d:%s" % (d["element_id"], d["element_type"])
        md["loop"] = json.dumps([li["loopnest_index"]] + [li[f] for f in NUMF] + [li[f] for f in BOOLF])
    else:
        md["element"] = md["loop"] = "-"
    return md


NULL = -99999999
LIM = 2000000000


def scaled(x, k):
    if x is None or not isinstance(x, (int, float)) or isinstance(x, bool):
        return NULL
    v = round(x * k)
    return max(-LIM, min(LIM, v))


class Interner:
    def __init__(self):
        self.t = {}

    def __call__(self, s):
        return self.t.setdefault(s, "s%d" % len(self.t))


def no_dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key " + k)
        d[k] = v
    return d


def project(script, status, out, log):
    """The record the trace specification reads, made from what the run left behind."""
    I = Interner()
    kinds = {KCPU: script["cpu"], KCUDA: script["cuda"], KNONE: None}
    evs = [(kinds[r["kind"]] or "").split(",") if kinds[r["kind"]] else [] for r in script["regions"]]
    rec = {"mode": "aggregate" if script["mode"] == "aggregate" else "raw", "status": status, "null": NULL,
           "nops": len(script["ops"]), "vs": script["vs"]}
    rec["regs"] = [{"evs": [I("ev:" + x) for x in evs[i]], "md": {k: I(v) for k, v in expected_md(r).items()}}
                   for i, r in enumerate(script["regions"])]
    conc = "threads" in script
    rec["conc"] = conc
    opsof = {i: o for i, o in enumerate(script["ops"], 1)}
    calls, ids, names, clocks, works, done, allcalls = {}, {}, {}, {}, {}, [], []
    for line in log:
        p = line.rstrip("\n").split(" ", 2)
        op = int(p[1])
        if p[0] == "R":
            ids[op] = int(p[2])
            done.append(op)
        elif p[0] == "C":
            clocks.setdefault(op, int(p[2]) // 1000)
        elif p[0] == "W":
            works.setdefault(op, int(p[2]))
        elif p[0] == "N":
            names[op] = I("ev:" + p[2])
        elif p[0] == "P":
            f, s, ok = p[2].split(" ")
            o = opsof.get(op, {"op": "end", "u": 0})
            k = {"f": f, "s": int(s), "ok": int(ok) == 0, "ev": names.get(op, "-") if f == "add" else "-",
                 "u": o["u"], "i": o["op"] in ("init", "bulkpair")}
            if conc:
                allcalls.append(k)
            else:
                calls.setdefault(op, []).append(k)
    ops = []
    if conc:
        for i in done:
            o = script["ops"][i - 1]
            x = {"op": o["op"], "t": o["t"], "u": o["u"], "c": clocks.get(i, 0) - script["base"], "w": works.get(i, 0),
                 "id": min(ids[i], LIM), "calls": []}
            for f, g in (("mtok", "name"), ("q", "q"), ("k", "k")):
                if f in o:
                    x[g] = o[f]
            ops.append(x)
        if script.get("light"):
            allcalls = []
        calls = {0: allcalls}
    for i, o in enumerate(script["ops"], 1):
        if conc or i not in ids:
            break
        x = {"op": o["op"], "t": o["t"], "u": o["u"], "c": o["c"], "w": o["w"], "id": min(ids[i], LIM), "calls": calls.get(i, [])}
        if "q" in o:
            x["name"], x["q"] = o["mtok"], o["q"]
        ops.append(x)
    rec["ops"] = ops
    rec["endcalls"] = calls.get(0, [])
    rec["json"] = False
    rec["events"] = []
    back = {v: k for k, v in script.get("mnames", {}).items()}
    evset = {x for e in evs for x in e}
    try:
        doc = json.loads(out, parse_constant=lambda c: 1 / 0, object_pairs_hook=no_dup)
        evl = []
        for e in doc["traceEvents"]:
            lb = e["args"]["source_ranges"][0]["from"]["line"]
            u = [i + 1 for i, r in enumerate(script["regions"]) if r["line_begin"] == lb]
            x = {"u": u[0] if u else 0, "ph": e["ph"], "md": {k: I(v) for k, v in observed_md(e).items()},
                 "ts": scaled(e["ts"] - script["base"], 1) if "ts" in e else -1,
                 "dur": scaled(e["dur"], 1) if "dur" in e else -1,
                 "dur100": scaled(e["dur"], 100) if "dur" in e else -1, "metrics": []}
            for n, v in e["args"]["metrics"].items():
                if n.startswith("static:::"):
                    t = "static:::" + back.get(n[9:], "?" + n[9:])
                    t = I(t) if "?" in t else t
                elif n == "runtime":
                    t = "runtime"
                else:
                    t = I("ev:" + n)
                if isinstance(v, dict):
                    x["metrics"].append({"n": t, "v": NULL, "mean": scaled(v["mean"], 100), "var": scaled(v["variance"], script["vs"]),
                                         "count": scaled(v["count"], 1), "min": scaled(v["min"], 100), "max": scaled(v["max"], 100)})
                else:
                    x["metrics"].append({"n": t, "v": scaled(v, 1), "mean": NULL, "var": NULL, "count": NULL, "min": NULL, "max": NULL})
            evl.append(x)
        rec["events"] = evl
        rec["json"] = True
    except Exception as ex:
        rec["why"] = I(str(ex)[:200])
        rec["_why"] = str(ex)[:300]
    return rec


def execute(exe, so, wd, scripts, timeout=600):
    n = JOBS
    chunks = [list(range(len(scripts)))[i::n] for i in range(n)]
    recs = [None] * len(scripts)

    def go(i):
        d = os.path.join(wd, "x%d" % i)
        os.makedirs(d, exist_ok=True)
        lines = []
        for k in chunks[i]:
            s = dict(scripts[k])
            s["out"] = os.path.join(d, "o%d" % k)
            s["log"] = os.path.join(d, "l%d" % k)
            lines.append(json.dumps(s))
        rc, out, err = run_harness([exe, so], timeout, stdin="\n".join(lines) + "\n")
        if rc != 0:
            raise CheckError("instrumentation harness failed rc=%s %s" % (rc, err[-2000:]))
        sts = [int(x) for x in out.split()]
        if len(sts) != len(chunks[i]):
            raise CheckError("instrumentation harness lost records")
        for k, st in zip(chunks[i], sts):
            def rd(p):
                try:
                    with open(p, encoding="utf-8", errors="surrogateescape") as fh:
                        return fh.read()
                except OSError:
                    return ""
            o, lg = os.path.join(d, "o%d" % k), os.path.join(d, "l%d" % k)
            recs[k] = (st, rd(o), rd(lg).splitlines())
            for f in (o, lg):
                if os.path.exists(f):
                    os.unlink(f)
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(go, range(n)))
    return recs


def configured(rnd, ops, mode, nregs, wild=False, cpu="?", base=0, mnames=None):
    """A concrete program: region descriptors, event sets and values for a behaviour of the specification."""
    cpus = [None, "", "E1", "E1,E2", "PAPI_TOT_CYC,perf::X:u=1,E3"]
    cudas = [None, "", "cuda:::a", "C1,C2"]
    s = {"mode": mode, "cpu": rnd.choice(cpus) if cpu == "?" else cpu, "cuda": rnd.choice(cudas), "base": base}
    s["regions"] = [region(i, rnd, rnd.choice([0, 0, 1, 2]) if cpu == "?" else rnd.choice([0, 0, 0, 1]), wild)
                    for i in range(1, nregs + 1)]
    s["mnames"] = mnames or {"m1": "flops", "m2": "bytes"}
    oo = []
    for o in ops:
        o = dict(o)
        if "val" in o:
            o["mtok"] = o["name"]
            o["name"] = s["mnames"][o["name"]]
            o["q"] = o["val"] * (4 if o["op"] == "inc" else 1)
            o["val"] = o["val"] if o["op"] == "inc" else o["val"] / 4.0
        oo.append(o)
    s["ops"] = oo
    span = (oo[-1]["w"] + oo[-1]["c"]) if oo else 0
    s["vs"] = 100 if span <= 120 else 1
    return s


def validate(rep, wd, recs, invs, module="InstrTrace", scripts=None):
    trace = os.path.join(wd, "trace.ndjson")
    with open(trace, "w") as fh:
        for r in recs:
            fh.write(json.dumps({k: v for k, v in r.items() if k != "_why"}) + "\n")
    r = tlc_checked(module, "SPECIFICATION TSpec\nINVARIANTS %s\nCONSTANT CacheSize = 10\n" % invs,
                    os.path.join(wd, "val"), env={"TRACE": trace}, timeout=780, extra=["-continue"] if False else None)
    rep.tlc(r)
    rep.add("traces_validated_against_impl", len(recs))
    want = sum(len(x["ops"]) + 2 for x in recs)
    if r.violated:
        m = re.findall(r"^(?:/\\ )?r = (\d+)", r.out, re.M)
        i = re.findall(r"Invariant (\w+) is violated", r.out)
        k = int(m[-1]) - 1 if m else 0
        rep.violation("%s violated by this program: %s" % (i, json.dumps(recs[k])[:1800]),
                      {"script": scripts[k] if scripts else None, "record": recs[k]})
    elif r.distinct != want:
        raise CheckError("the trace specification examined %d of %d steps" % (r.distinct, want))


def programs(rep, wd, modes):
    """Behaviours of InstrGen made concrete, for the given modes."""
    t = rep.thorough
    rnd = random.Random(rep.seed * 1009 + 5)
    small = gen(rep, wd, "g1", 9 if t else 7, [1, 2], overlap=2)
    thr = gen(rep, wd, "g2", 8 if t else 7, [1], threads=[0, 1], overlap=3)
    met = gen(rep, wd, "g3", 6, [1], mets=["m1", "m2"], vals=[-5, 8], overlap=1)
    lim = 20000 if t else 1500
    out = []
    for xs in (small, thr, met):
        if len(xs) > lim:
            xs = rnd.sample(xs, lim)
        out += xs
    sims = gen(rep, wd, "g4", 40, [1, 2, 3], threads=[0, 1, 2], mets=["m1", "m2"], vals=list(range(-9, 40)), overlap=3,
               simulate=1500 if t else 300)
    many = gen(rep, wd, "g5", 90, list(range(1, 15)), threads=[0], mets=[], vals=[], overlap=2,
               simulate=800 if t else 150)
    progs = []
    for i, o in enumerate(out):
        progs.append(configured(rnd, o, modes[i % len(modes)], max(x["u"] for x in o) + (i % 2),
                                cpu="E1,E2" if i % 3 else "?", base=rnd.choice([0, 0, 1000, 5000000])))
    for i, o in enumerate(sims):
        progs.append(configured(rnd, o, modes[i % len(modes)], 3, cpu="E1" if i % 2 else "?"))
    for i, o in enumerate(many):
        progs.append(configured(rnd, o, modes[i % len(modes)], 14, cpu="E1,E2" if i % 2 else "?"))
    return progs


def long_programs(rep, modes):
    """Many activations of a region, many regions, deep recursion."""
    rnd = random.Random(rep.seed * 11 + 2)
    n = 3000 if rep.thorough else 1100
    out = []
    def prog(ops, regs, kind, **kw):
        c = w = 0
        for o in ops:
            o.setdefault("t", 0)
            if o["op"] in ("enter", "exit"):
                c, w = c + rnd.randint(1, 9), w + rnd.randint(0, 3)
            o.update(c=c, w=w)
        p = configured(rnd, ops, modes[len(out) % len(modes)], regs, cpu="E1,E2", **kw)
        for r in p["regions"]:
            r["kind"] = kind if kind is not None else r["kind"]
        out.append(p)
    O = lambda op, u: {"op": op, "u": u}
    for kind in (KNONE, KCPU):
        for m in modes:
            prog([O("init", 1)] + [O(x, 1) for _ in range(n) for x in ("enter", "exit")] + [O("fin", 1)], 1, kind)
    for m in modes:
        k = n // 8
        prog([x for u in range(1, k) for x in (O("init", u), O("enter", u), O("exit", u))] + [O("fin", u) for u in range(1, k)] +
             [x for u in range(k - 1, 0, -7) for x in (O("init", u), O("enter", u), O("exit", u))], k, None)
        prog([O("init", 1) for _ in range(70)] + [O("enter", 1) for _ in range(70)] + [O("exit", 1) for _ in range(70)] +
             [O("fin", 1) for _ in range(70)], 1, KCPU)
        prog([O("init", 1)] + [O(x, 1) for _ in range(n // 10) for x in ("enter", "exit", "fin", "init")] + [O("fin", 1)], 1, None)
        prog([O("init", 1)] + [dict(O("met", 1), name=rnd.choice(["m1", "m2"]), val=rnd.randint(-9, 40)) for _ in range(n // 5)] +
             [O("fin", 1)], 1, None)
    return out


def wild_programs(rep, wd):
    rnd = random.Random(rep.seed * 17 + 3)
    xs = gen(rep, wd, "gw", 6, [1, 2], overlap=1)
    sims = gen(rep, wd, "gw2", 14, [1, 2, 3], threads=[0, 1], mets=["m1", "m2"], vals=[-3, 4, 10], overlap=2, simulate=300)
    n = 4000 if rep.thorough else 900
    progs = []
    for i in range(n):
        o = rnd.choice(sims if i % 2 else xs)
        o = o[:rnd.randint(1, len(o))]
        m = rnd.sample(WILD, 2)
        p = configured(rnd, o, rnd.choice([None, "aggregate", "raw", "", "Aggregate"]), 3, wild=True,
                       mnames={"m1": m[0], "m2": m[1]})
        for x in p["ops"]:
            if x["op"] == "met" and rnd.random() < 0.2:
                x["val"] = rnd.choice(["nan", "inf", "-inf"])
        if rnd.random() < 0.3:
            p["cpu"] = rnd.choice(['ev"1', "a\\b,c", "cpu::ev:u=0x1\tx", "α"])
        progs.append(p)
    return progs


def concurrent_programs(rep):
    """Several threads' calls, each thread following the protocol on its own registrations."""
    rnd = random.Random(rep.seed * 7 + 1)
    progs = []
    for i in range(1500 if rep.thorough else 300):
        nt, nr = rnd.choice([2, 2, 3, 4]), rnd.choice([1, 2, 2, 12])
        mode = [None, "aggregate"][i % 2]
        p = configured(rnd, [], mode, nr, cpu="E1,E2" if i % 3 else "?", base=0)
        p["vs"] = 1
        p["seed"] = rnd.randint(1, 1 << 30)
        p["threads"], p["ops"] = [], []
        for t in range(nt):
            stack, seq = [], []
            for _ in range(rnd.randint(3, 14)):
                c = [("init", u) for u in rnd.sample(range(1, nr + 1), min(2, nr))] if len(stack) < 4 else []
                if stack:
                    top, opened = stack[-1]
                    c += [("enter", top)] if not opened else [("exit", top)] * 2
                    c += [("fin", top)] if not opened else []
                    c += [("met", top), ("inc", top)]
                op, u = rnd.choice(c)
                o = {"op": op, "t": t + 1, "u": u}
                if op == "init":
                    stack.append([u, False])
                elif op == "enter":
                    stack[-1][1] = True
                elif op == "exit":
                    stack[-1][1] = False
                elif op == "fin":
                    stack.pop()
                else:
                    o["mtok"] = rnd.choice(["m1", "m2"])
                    o["name"] = p["mnames"][o["mtok"]]
                    v = rnd.randint(-9, 9)
                    o["val"] = v if op == "inc" else v / 4.0
                    o["q"] = 4 * v if op == "inc" else v
                seq.append(o)
            while rnd.random() < 0.9 and stack:
                u, opened = stack.pop()
                seq += ([{"op": "exit", "t": t + 1, "u": u}] if opened else []) + [{"op": "fin", "t": t + 1, "u": u}]
            for o in seq:
                p["ops"].append(o)
                o["i"] = len(p["ops"])
            p["threads"].append(seq)
        progs.append(p)
    for i in range(24 if rep.thorough else 12):
        nt = 4
        p = configured(rnd, [], ["aggregate", None][i % 3 == 2], 3, cpu=["E1", ""][i % 2], base=0)
        p["mnames"]["m3"] = "bulk"
        p.update(vs=1, seed=i + 1, light=True, chaos=bool(i % 2), threads=[], ops=[])
        for t in range(nt):
            k = 12000 if not i % 2 else 1500
            seq = [{"op": "init", "u": 1}, {"op": "bulkinc", "u": 1, "mtok": "m3", "name": "bulk", "k": k, "val": t + 1, "q": t + 1},
                   {"op": "bulkpair", "u": 2, "k": 400 if not i % 2 else 120}, {"op": "fin", "u": 1}]
            for o in seq:
                o["t"] = t + 1
                p["ops"].append(o)
                o["i"] = len(p["ops"])
            p["threads"].append(seq)
        progs.append(p)
    return progs


def check_conc(prop, invs):
    rep = Report(prop, "model_checking")
    exe, so = build_harness()
    wd = scratch(prop)
    # the design: interleavings of three threads on one region, every registration and activation order
    gen(rep, wd, "g2", 8 if rep.thorough else 7, [1], threads=[0, 1, 2], overlap=3)
    progs = concurrent_programs(rep)
    raw = execute(exe, so, wd, progs)
    recs = [project(p, *x) for p, x in zip(progs, raw)]
    validate(rep, wd, recs, invs, scripts=progs)
    rep.coverage["calls"] = sum(len(p["ops"]) for p in progs)
    for k in (0, 1, 2):
        rep.sample([[(o["op"], o["u"]) for o in th] for th in progs[k]["threads"]])
    rep.assumptions.append("interleavings are sampled: yields after every lock release and around every counter-library call")
    return rep.finish()


def check(prop, invs, modes, wild=False):
    rep = Report(prop, "model_checking")
    exe, so = build_harness()
    wd = scratch(prop)
    progs = programs(rep, wd, modes)
    if wild:
        rnd = random.Random(rep.seed)
        progs = rnd.sample(progs, min(len(progs), 8000 if rep.thorough else 1500)) + wild_programs(rep, wd)
    progs += long_programs(rep, modes)
    raw = execute(exe, so, wd, progs)
    recs = [project(p, *x) for p, x in zip(progs, raw)]
    validate(rep, wd, recs, invs, scripts=progs)
    rep.coverage["calls"] = sum(len(p["ops"]) for p in progs)
    for k in (0, len(progs) // 2, len(progs) - 1):
        rep.sample([(o["op"], o["t"], o["u"]) for o in progs[k]["ops"]])
    rep.assumptions.append("programs register a region before entering it and exit what they enter on the same thread")
    rep.assumptions.append("the counter library is a scripted stand-in with PAPI's documented start/stop/cleanup rules")
    return rep.finish()
