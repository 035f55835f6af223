from vlib import *
import itertools, random

CAPDIR = "arg-capture-io/src"
FLAGS = ["-std=c++20", "-g1", "-O1", "-fPIC", "-w", "-I" + repo("arg-capture-io/include"), "-I" + repo("rtl/include")]


def build_harness():
    srcs = [repo(CAPDIR, f) for f in sorted(os.listdir(repo(CAPDIR))) if f.endswith(".cpp")]
    srcs.append(repo("rtl/src/capture.cpp"))
    objs = compile_many(srcs + [os.path.join(HARNESS, "cap_harness.cpp")], FLAGS, "cap")
    exe = link(objs, os.path.join(BUILD, "bin", "cap_harness"), [])
    rt = compile_many([os.path.join(HARNESS, "capio_harness.cpp")], FLAGS, "cap")
    io = link(objs[:-1] + rt, os.path.join(BUILD, "bin", "capio_harness"), [])
    fo = compile_many([os.path.join(HARNESS, "fault_preload.c")], ["-O1", "-fPIC", "-w"], "cap")
    so = link(fo, os.path.join(BUILD, "bin", "fault_preload.so"), ["-ldl"], shared=True)
    return exe, io, so


GENCFG = """SPECIFICATION GSpec
INVARIANTS Dump OnlyAllowed Slots
PROPERTY Immutable
CONSTANTS
 SIM = %(sim)s
 L = %(L)d
 Ctxs = {%(ctxs)s}
 Els = {%(els)s}
 Args = {%(args)s}
 Strats = {%(strats)s}
 Envs = {%(envs)s}
 Dirs = {%(dirs)s}
 DimSet = %(dims)s
 Tags = {%(tags)s}
"""
Q = lambda xs: ", ".join('"%s"' % x for x in xs)
J = lambda xs: ", ".join(str(x) for x in xs)


def gen(rep, wd, name, c, simulate=None, props=True):
    """Behaviours of spec/CaptureGen.tla: exhaustive, or a seeded simulation of that many behaviours."""
    d = dict(L=c["L"], ctxs=J(c["ctxs"]), els=J(c["els"]), args=J(c["args"]), strats=Q(c["strats"]), envs=Q(c["envs"]),
             dirs=Q(c["dirs"]), dims="{" + J(c["dims"]) + "}", tags=J(c["tags"]),
             sim="TRUE" if simulate else "FALSE")
    cfg = GENCFG % d
    extra = []
    if simulate:
        cfg = cfg.replace("PROPERTY Immutable\n", "")
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(c["L"] + 1), "-seed", str(rep.seed * 31 + 7)]
    r = tlc_checked("CaptureGen", cfg, os.path.join(wd, name), extra=extra, workers=1 if simulate else None)
    if r.violated:
        raise CheckError("the capture specification violates its own properties\n" + r.out[-3000:])
    rep.tlc(r)
    out = []
    seen = set()
    for line in r.out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            s = json.loads(json.loads(line)[2:])
            k = json.dumps(s[:-1] if simulate else s)   # a simulation also prints the siblings of its last step
            if k not in seen:
                seen.add(k)
                out.append(s)
    return out


STRATS = ["all", "once", "never", "unset", "weird", "ALL", "", "all-but", "al", " all", "nevermore", "nev", "Never", "onc",
          "once2", "0", "1", "null", "first"]


def long_scripts(t):
    """Many invocations and many regions of one context."""
    out = []
    n = 2000 if t else 800
    for strat in ("all", "once", "unset"):
        s = [dict(op="init", c=1, name="f1", strat=strat, env="unset", dir="d")]
        seen = {}
        for k in range(n):
            el = 1 if k % 3 else 2
            s.append(dict(op="enter", c=1, el=el))
            if strat == "all" or el not in seen:
                s += [dict(op="cap", c=1, el=el, arg=0, after=False, type=4, dims=[4], tag=k % 60), dict(op="end", c=1)]
            seen[el] = 1
        out.append(s)
        s = [dict(op="init", c=1, name="f1", strat=strat, env="unset", dir="d")]
        for k in range(n // 2):
            s += [dict(op="enter", c=1, el=k), dict(op="cap", c=1, el=k, arg=0, after=True, type=4, dims=[4, 2], tag=k % 60),
                  dict(op="end", c=1)]
        out.append(s)
        s = [dict(op="init", c=1, name="f1", strat=strat, env="unset", dir="d"), dict(op="enter", c=1, el=3)]
        for k in range(n // 2):
            s.append(dict(op="cap", c=1, el=3, arg=k // 2, after=k % 2 == 0, type=k % 19, dims=[4, 3], tag=k % 60))
        out.append(s + [dict(op="end", c=1)])
    return out


def scripts(rep, wd):
    t = rep.thorough
    one = dict(L=7 if t else 6, ctxs=[1], els=[3, 7], args=[0], strats=["all", "once"], envs=["unset"], dirs=["d"],
               dims=[1], tags=[1])
    xs = gen(rep, wd, "g1", one)
    cfgs = dict(L=4, ctxs=[1, 2], els=[5], args=[0], strats=STRATS,
                envs=["unset", "e1"], dirs=["unset", "d1/sub"], dims=[2], tags=[2])
    ys = gen(rep, wd, "g2", cfgs)
    rnd = random.Random(rep.seed)
    if not t and len(ys) > 3000:
        ys = rnd.sample(ys, 3000)
    deep = dict(L=24, ctxs=[1, 2, 3], els=[1, 12, 2], args=[0, 1, 10], strats=["all", "once", "never", "unset"],
                envs=["unset", "e1"], dirs=["unset", "d1"],
                dims=list(range(1, 13)),
                tags=list(range(1, 60)))
    zs = gen(rep, wd, "g3", deep, simulate=3000 if t else 400)
    allow = dict(deep, strats=["all"], ctxs=[1, 2], els=[1, 11], L=30)
    zs += gen(rep, wd, "g4", allow, simulate=2000 if t else 300)
    many = dict(deep, strats=["once", "unset", "all"], ctxs=[1], els=[1, 2, 3, 4, 5, 6], args=[0, 1], L=26, envs=["unset"], dirs=["d"])
    zs += gen(rep, wd, "g5", many, simulate=1500 if t else 250)
    zs += long_scripts(t) + family_scripts()
    if not t and len(xs) > 2500:
        xs = rnd.sample(xs, 2500)
    return xs + ys + zs


# families of region numbers that a lossy encoding of them would identify
ELS = [[1, 11, 111, 1111, 11111, 111111], [2, 12, 22, 122, 212, 21], [0, 10, 100, 1000, 10000, 100000],
       [7, 10007, 20007, 120007, 100000007, 1000000000007], [1, 257, 65537, 16777217, 4294967297, 8589934593],
       [9, 99, 256, 65536, 4294967296, 18446744073709551615], [5, 9223372036854775813, 2147483653, 4294967301, 133, 32773],
       [123456789, 123456788, 12345678912, 12345678913, 1234567891, 23456789]]
ARGS = [[0, 1, 2, 3], [1, 11, 111, 1111], [10, 100, 1000, 0], [0, 256, 65536, 16777216], [12, 2, 22, 122], [1, 257, 65537, 16777217],
        [2147483647, 32767, 127, 255], [10007, 7, 20007, 120007]]
NAMES = ["f", "ff", "kernel", "f_inv0", "f.g", "sdfg_main_3", "a b", "x_arg0_in", "f_inv1_1"]


class Fixed(list):
    """A script with a given choice of concrete numbers and names."""


def family_scripts():
    """Every family of numbers in full: all its regions and arguments recorded twice, in two contexts of colliding names."""
    out = []
    for i, fam in enumerate(ELS):
        for strat in ("all", "once"):
            args = ARGS[(i + (strat == "once")) % len(ARGS)]
            s = Fixed()
            s += [dict(op="init", c=c, name="f%d" % c, strat=strat, env="unset", dir="d") for c in (1, 2)]
            seen, tag = set(), 0
            for rnd in range(2):
                for e in range(len(fam)):
                    for c in (1, 2):
                        if c == 2 and e % 3:
                            continue
                        s.append(dict(op="enter", c=c, el=e))
                        if strat == "once" and (c, e) in seen:
                            continue
                        seen.add((c, e))
                        for a in range(len(args) if e < 2 else 2):
                            for after in (False, True):
                                tag += 1
                                s.append(dict(op="cap", c=c, el=e, arg=a, after=after, type=4, dims=[4 + tag % 3, 17 + tag % 5],
                                              tag=1 + tag % 200))
                        s.append(dict(op="end", c=c))
            s.m = {"el": dict(enumerate(map(str, fam))), "arg": dict(enumerate(args)),
                   "name": {"f1": NAMES[i % len(NAMES)], "f2": NAMES[(i + 1 + 6 * (strat == "once")) % len(NAMES)]}}
            out.append(s)
    return out


def concretise(s, rnd):
    """Region numbers, argument numbers and names of a script, mapped injectively to concrete ones."""
    if isinstance(s, Fixed):
        return [{k: (s.m[k][v] if k in s.m else v) for k, v in o.items()} for o in s], s.m
    ops = s["ops"] if isinstance(s, dict) else s
    els = sorted({o["el"] for o in ops if "el" in o})
    args = sorted({o["arg"] for o in ops if "arg" in o})
    names = sorted({o["name"] for o in ops if "name" in o})
    pick = lambda xs, fams: xs if len(xs) > len(fams[0]) or rnd.random() < 0.1 else rnd.sample(rnd.choice(fams), len(xs))
    pe, pa = pick(els, ELS), pick(args, ARGS)
    pn = names if len(names) > len(NAMES) or rnd.random() < 0.1 else rnd.sample(NAMES, len(names))
    m = {"el": dict(zip(els, map(str, pe))), "arg": dict(zip(args, pa)), "name": dict(zip(names, pn))}
    new = [{k: (m[k][v] if k in m else v) for k, v in o.items()} for o in ops]
    return (dict(s, ops=new) if isinstance(s, dict) else new), m


def abstract(rec, s, m):
    """The record of a concrete script in terms of the abstract one."""
    ops = s["ops"] if isinstance(s, dict) else s
    inv = {k: {v: a for a, v in d.items()} for k, d in m.items()}
    for r, o in zip(rec["ops"], ops):
        for k in m:
            if k in o:
                r[k] = o[k]

    def disk(d):
        for e in d["idx"]:
            e["el"] = inv["el"].get(e["el"], -1)
            e["name"] = inv["name"].get(e["name"], "?" + e["name"])
            for c in e["caps"]:
                c["arg"] = inv["arg"].get(c["arg"], -1)
    for r in rec["ops"]:
        if "disk" in r:
            disk(r["disk"])
    disk(rec["final"])
    return rec


def execute(exe, wd, ss, args=(), env=None, timeout=600):
    """Runs the scripts on all cores; one record per script."""
    n = JOBS
    chunks = [ss[i::n] for i in range(n)]
    # the choice depends on the script's position alone, not on the number of cores
    conc = [[concretise(s, random.Random(4711 + i + n * k)) for k, s in enumerate(c)] for i, c in enumerate(chunks)]

    def go(i):
        d = os.path.join(wd, "x%d" % i)
        os.makedirs(d, exist_ok=True)
        rc, out, err = run_harness([exe, d] + list(args), timeout, env=env,
                                   stdin="\n".join(json.dumps(s) for s, _ in conc[i]) + "\n")
        if rc != 0:
            raise CheckError("capture harness failed rc=%s %s" % (rc, err[-2000:]))
        recs = [json.loads(x) for x in out.splitlines()]
        if len(recs) != len(chunks[i]):
            raise CheckError("capture harness lost records")
        for r, s, (_, m) in zip(recs, chunks[i], conc[i]):
            abstract(r, s, m)
            r["nops"] = len(s)
        shutil.rmtree(d, ignore_errors=True)
        return recs
    with cf.ThreadPoolExecutor(n) as ex:
        return [r for rs in ex.map(go, range(n)) for r in rs]


def validate(rep, wd, recs, invs, module="CaptureTrace", what="recording"):
    trace = os.path.join(wd, "trace.ndjson")
    with open(trace, "w") as fh:
        for r in recs:
            fh.write(json.dumps(r) + "\n")
    r = tlc_checked(module, "SPECIFICATION TSpec\nINVARIANTS %s\n" % invs, os.path.join(wd, "val"),
                    env={"TRACE": trace}, timeout=780)
    rep.tlc(r)
    rep.add("traces_validated_against_impl", len(recs))
    want = sum(len(x["ops"]) + 1 for x in recs) if module == "CaptureTrace" else None
    if r.violated:
        m = re.findall(r"^(?:/\\ )?r = (\d+)", r.out, re.M)
        i = re.findall(r"Invariant (\w+) is violated", r.out)
        rec = recs[int(m[-1]) - 1] if m else None
        rep.violation("%s violated by this %s: %s" % (i, what, json.dumps(rec)[:1800]), rec)
    elif want is not None and r.distinct != want:
        # a call of a script was not a step of the specification
        raise CheckError("the trace specification examined %d of %d steps" % (r.distinct, want))


def check(prop, invs):
    rep = Report(prop, "model_checking")
    exe, io, so = build_harness()
    wd = scratch(prop)
    ss = scripts(rep, wd)
    recs = execute(exe, wd, ss)
    validate(rep, wd, recs, invs)
    rep.coverage["calls"] = sum(len(s) for s in ss)
    for k in (0, len(ss) // 2, len(ss) - 1):
        rep.sample(ss[k])
    rep.assumptions.append("callers follow the generated code's protocol: capture only between enter=true and end")
    return rep.finish()
