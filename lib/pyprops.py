"""P01, P02: the Python frontend against Py.tla."""
import time
from pycheck import *
from pygen import *

DIMS = (dict(N=2, M=3, K=2), dict(N=3, M=2, K=2), dict(N=3, M=3, K=2))


def verdicts(rep, items, rs, what):
    """items: id -> (program, inputs, family).  Judges every run, reports violations, returns counters per family."""
    cases, stat = [], {}
    for k, (p, ins, fam) in items.items():
        r = rs[k]
        st = stat.setdefault(fam, dict(programs=0, rejected=0, runs=0, outside=0))
        st["programs"] += 1
        key = p.get("key")
        if r["error"] and re.match(r"crash|no answer", r["error"]):
            rep.violation("%s: a kernel of family %s did not survive (%s)" % (what, fam, r["error"]),
                          dict(source=source(p), inputs=ins, error=r["error"]), key=key)
            continue
        if r["error"]:
            st["rejected"] += 1
            st.setdefault("why", {})
            why = r["error"].split(" | ")[0][:80]
            st["why"][why] = st["why"].get(why, 0) + 1
        keep = [i for i in range(len(ins)) if r["py"].get(str(i)) and r["docc"].get(str(i))]
        if keep:
            cases.append(dict(id=k, P=model(p), inputs=[ins[i] for i in keep], py=[r["py"][str(i)] for i in keep],
                              docc=[r["docc"][str(i)] for i in keep], fuel=400))
    bad, badpy, ran, skip = judge(rep, cases)
    if badpy:
        raise CheckError("Py.tla disagrees with CPython on " + "; ".join(source(items[k][0]) for k, _ in badpy[:2]))
    by = {c["id"]: c for c in cases}
    seen = set()
    for k, i in bad:
        p, ins, fam = items[k]
        if k in seen:
            continue
        seen.add(k)
        c = by[k]
        rep.violation("%s: a kernel of family %s does not give what the specification gives" % (what, fam),
                      dict(source=source(p), input=c["inputs"][i - 1], got=c["docc"][i - 1], python=c["py"][i - 1]), key=p.get("key"))
    for k, _ in ran:
        stat[items[k][2]]["runs"] += 1
    for k, _ in skip:
        stat[items[k][2]]["outside"] += 1
    return stat


def floor(rep, stat, share=0.6, least=15):
    """Families the frontend takes: losing most of one is no answer at all."""
    for f, s in stat.items():
        # kernels written for one type of element are often refused with another
        if s["programs"] >= least and s["programs"] - s["rejected"] < (0.15 if f in ("types", "long") else share) * s["programs"]:
            rep.violation("kernels of family %s do not compile any more" % f, s)
        if s["programs"] >= least and s["runs"] == 0 and not s["rejected"]:
            raise CheckError("family %s is outside the specification" % f)


def p01():
    rep = Report("P01", "model_checking")
    tier = "thorough" if rep.thorough else "quick"
    rep.coverage["technique"] = "random kernels from typed families, executed in Py.tla, CPython and the compiled frontend"
    root = pyfront.build_frontend()
    per = {"quick": 36, "thorough": 170}[tier]
    items, jobs = {}, []
    for fam, gen in sorted(pyfam.FAMILIES.items()):
        n = int(per * pyfam.WEIGHT.get(fam, 1))
        for i in range(n):
            rnd = random.Random("%s-%d-%d" % (fam, rep.seed, i))
            p = gen(rnd)
            ins = [make_input(rnd, p["params"], d) for d in DIMS]
            k = "%s_%d" % (fam, i)
            items[k] = (p, ins, fam)
            jobs.append(dict(id=k, src=source(p), calls=ins, target="none"))
    for n, (p, ins) in pyfam.fixed().items():
        items["fixed_" + n] = (p, ins, "fixed")
        jobs.append(dict(id="fixed_" + n, src=source(p), calls=ins, target="none"))
    t = time.time()
    rs = run_jobs(jobs, root)
    rep.coverage["kernels_s"] = round(time.time() - t, 1)
    stat = verdicts(rep, items, rs, "P01")
    floor(rep, stat)
    rep.coverage["families"] = stat
    rep.coverage["samples"] = [source(items[k][0]) for k in list(items)[:: max(1, len(items) // 6)]]
    rep.assumptions += ["values are multiples of 1/16 small enough to be exact; runs in which the specification leaves that range are not judged",
                        "kernels the frontend refuses with an exception are counted, not judged"]
    return rep.finish()


# ------------------------------------------------------------------ P02
SETTINGS = [dict(), dict(opts=dict(instrumentation_mode="ols")), dict(opts=dict(capture_args=True)), dict(env=dict(DOCC_CI="regions")),
            dict(env=dict(DOCC_CI="arg-capture")), dict(env=dict(DOCC_CI="1")), dict(opts=dict(instrumentation_mode="", capture_args=False)),
            dict(opts=dict(instrumentation_mode="ols", capture_args=True))]


def mode_of(s):
    o, ci = s.get("opts", {}), s.get("env", {}).get("DOCC_CI", "")
    return dict(instr=o.get("instrumentation_mode", "ols" if ci and ci != "arg-capture" else ""),
                cap=o.get("capture_args", bool(ci) and ci != "regions"))


def described(inp, names, rebound):
    """The call as PyCache.tla sees it."""
    r = []
    for a, n in zip(inp["args"], names):
        if a["k"] == "a":
            r.append(dict(k="a", ty=inp["heap"][a["b"] - 1]["dt"], name="", sh=a["sh"], st=a["st"], v=0, tie=False))
        else:
            r.append(dict(k="s", ty=a["dt"], name=n if "." in n else "", sh=[], st=[], v=a["v"], tie=a["dt"] == "i" and "." not in n and n not in rebound))
    return dict(args=r, mode=mode_of(inp))


def pairs_of_calls(rep, every):
    """Histories TLC found that differ in one part of the specialisation, by part."""
    wd = scratch("pairs")
    cfg = "SPECIFICATION Spec\nCONSTANT Every = %d\nCONSTANT Phase = %d\nINVARIANT Sound\nINVARIANT Back\nINVARIANT Show\n" % (every, rep.seed % every)
    r = tlc_checked("PyCacheGen", cfg, wd, heap="8g", timeout=600)
    if r.violated:
        raise CheckError("PyCacheGen: " + r.out[-2000:])
    rep.tlc(r)
    out = {}
    o = re.sub(r"\s+", " ", r.out)
    for part, a, b in re.findall(r'<< ?"PAIR", "(\w+)", "<<(.*?)>>", "<<(.*?)>>" ?>>', o):
        f = lambda t: [x.strip().strip('\\').strip('"').strip('\\') for x in t.split(",")]
        out.setdefault(part, []).append((f(a), f(b)))
    for v in out.values():
        v.sort()
    shutil.rmtree(wd, ignore_errors=True)
    if len(out) < 6:
        raise CheckError("PyCacheGen found no pairs for some part: %s" % sorted(out))
    return out


def pairs_of_shapes(rep, every):
    """Calls of g(A, b, n, k) that relate extents and integers in different ways, by what differs."""
    wd = scratch("shapes")
    cfg = "SPECIFICATION Spec\nCONSTANT Every = %d\nCONSTANT Phase = %d\nINVARIANT Sound\nINVARIANT Back\nINVARIANT Show\n" % (every, rep.seed % every)
    r = tlc_checked("PyCacheShapes", cfg, wd, heap="8g", timeout=600)
    if r.violated:
        raise CheckError("PyCacheShapes: " + r.out[-2000:])
    rep.tlc(r)
    out, f = {}, lambda t: [int(x) for x in t.split(",")]
    for kind, a, b in re.findall(r'<< ?"SHAPES", "(\w+)", "<<(.*?)>>", "<<(.*?)>>" ?>>', re.sub(r"\s+", " ", r.out)):
        out.setdefault(kind, []).append((f(a), f(b)))
    for v in out.values():
        v.sort()
    shutil.rmtree(wd, ignore_errors=True)
    if len(out) < 6:
        raise CheckError("PyCacheShapes found no pairs of some kind: %s" % sorted(out))
    return out


def call_of(rnd, p, t):
    """An input from a call of PyCacheGen: N, M, n, layouts of A and u, types of x and A, settings."""
    inp = make_input(rnd, p["params"], dict(N=int(t[0]), M=int(t[1])), layout=dict(A=t[3], u=t[4]), scalars=dict(n=int(t[2])),
                     types=dict(x=t[5], A=t[6]))
    m = dict(instr=t[7], cap=t[8] == "TRUE")
    inp.update(rnd.choice([s for s in SETTINGS if mode_of(s) == m]))
    return inp


def member_call(rnd, p, variant):
    inp = make_input(rnd, p["params"], dict(N=rnd.choice([2, 3])), types={"p." + m: t for m, t in variant})
    for m, t in variant:
        if m not in ("x", "k"):
            inp["args"].append(dict(k="s", dt=t, v=value(rnd, t)))
    inp["names"] = ["u", "p.x", "p.k"] + ["p." + m for m, _ in variant if m not in ("x", "k")]
    return inp


VARIANTS = [[("x", "f"), ("k", "i")], [("x", "i"), ("k", "i")], [("x", "f"), ("k", "f")], [("x", "f"), ("k", "i"), ("a", "f")], [("x", "f"), ("k", "i"), ("l", "i")]]


def kernel_for(rnd, calls):
    """A kernel for calls of PyCacheGen.  Where they change the type of x or A, one that gives no name a value:
    the type of the name would change from statement to statement (known finding name-changes-kind)."""
    if all(c[5] == "f" and c[6] == "f" for c in calls):
        return pyfam.jit(rnd)
    for _ in range(12):
        p = pyfam.jit(rnd)
        if not pyfam.assigned(p, loops=False):
            return p
    return pyfam.plain(rnd)


def p02():
    rep = Report("P02", "model_checking")
    t = rep.thorough
    root = pyfront.build_frontend()
    pairs = pairs_of_calls(rep, 25)
    items, jobs, flags = {}, [], {}

    def add(k, p, ins, fam, loops=False):
        names = ins[0].get("names", p["ps"])
        items[k] = (p, ins, fam)
        flags[k] = (names, loops)
        jobs.append(dict(id=k, src=source(p), calls=ins, history=True))
    for part, ps in sorted(pairs.items()):
        n = (100 if t else 26) * (2 if part in ("layout", "units") else 1)
        rnd = random.Random("%s-%d" % (part, rep.seed))
        for i in range(n):
            a, b = rnd.choice(ps)
            p = pyfam.plain(rnd) if part == "mode" or i % 4 == 0 else kernel_for(rnd, (a, b))
            if rnd.random() < 0.5:
                a, b = b, a
            ins = [call_of(rnd, p, a), call_of(rnd, p, b), call_of(rnd, p, a)]
            if i % 3 == 0:
                ins.append(call_of(rnd, p, b))
            add("%s_%d" % (part, i), p, ins, part, part == "mode" and all(int(x) > 1 for x in a[:2] + b[:2]))
    # longer histories over everything
    rnd = random.Random("long-%d" % rep.seed)
    everything = [x for ps in pairs.values() for ab in ps for x in ab]
    for i in range(60 if t else 14):
        pool = [rnd.choice(everything) for _ in range(5)]
        p = kernel_for(rnd, pool)
        add("long_%d" % i, p, [call_of(rnd, p, rnd.choice(pool)) for _ in range(9)], "long")
    for kind, ps in sorted(pairs_of_shapes(rep, 97 if not t else 29).items()):
        rnd = random.Random("shapes-%s-%d" % (kind, rep.seed))
        for i in range((40 if t else 12) if kind in ("equal", "ties") else (20 if t else 5)):
            p = pyfam.shapes(rnd)
            a, b = rnd.choice(ps)
            of = lambda c: make_input(rnd, p["params"], dict(N=c[0], M=c[1], R=c[2]), scalars=dict(n=c[3], k=c[4]))
            add("shapes_%s_%d" % (kind, i), p, [of(a), of(b), of(a), of(b)], "shapes")
    for i in range(60 if t else 16):
        p = pyfam.members(rnd)
        x, y = rnd.sample(VARIANTS, 2)
        add("members_%d" % i, p, [member_call(rnd, p, v) for v in (x, y, x, y)], "members")
    rs = run_jobs(jobs, root)
    stat = verdicts(rep, items, rs, "P02")
    floor(rep, stat)
    # which kernel every call got
    cases = []
    for k, (p, ins, fam) in items.items():
        got = rs[k].get("kernel", {})
        n = 0
        while str(n) in got:
            n += 1
        if n > 1:
            names, loops = flags[k]
            calls = [described(x, x.get("names", names), pyfam.assigned(p)) for x in ins[:n]]
            cases.append(dict(id=k, calls=calls, obj=[got[str(i)][0] for i in range(n)], instr=[got[str(i)][1] for i in range(n)],
                              cap=[got[str(i)][2] for i in range(n)], loops=loops))
    wd = scratch("hist")
    f = os.path.join(wd, "cases.json")
    with open(f, "w") as fh:
        json.dump(cases, fh)
    r = tlc_checked("PyCacheTrace", "SPECIFICATION Spec\nINVARIANT Report\n", wd, env={"CASES": f}, heap="8g", timeout=600)
    if r.violated:
        raise CheckError("PyCacheTrace: " + r.out[-2000:])
    rep.tlc(r)
    if len(tlc_lines(r.out, "RUN")) != sum(len(c["calls"]) for c in cases):
        raise CheckError("TLC did not judge every call")
    o = re.sub(r"\s+", " ", r.out)
    by, seen = {c["id"]: c for c in cases}, set()
    for what, k, i, part in re.findall(r'<< ?"(BAD\w+)", "([^"]+)", (\d+), "(\w*)" ?>>', o):
        if (what, k) in seen:
            continue
        seen.add((what, k))
        text = dict(BADSHARE="a call got a kernel specialised for other " + part, BADAGAIN="a call compiled anew although nothing changed",
                    BADMODE="the kernel of a call does not have the code its settings ask for")[what]
        rep.violation(text, dict(source=source(items[k][0]), call=int(i), history=by[k]), key=items[k][0].get("key"))
    rep.coverage["histories"] = len(items)
    rep.coverage["families"] = stat
    rep.coverage["pairs"] = {k: len(v) for k, v in pairs.items()}
    rep.coverage["samples"] = [dict(source=source(items[k][0]), calls=by[k]["calls"][:2]) for k in list(by)[:: max(1, len(by) // 3)]]
    rep.assumptions += ["the target is 'none'; constants of the module keep their values between calls; arguments do not overlap"]
    return rep.finish()
