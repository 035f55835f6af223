import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from capcheck import *


def run():
    rep = Report("C05", "fault_enumeration")
    exe, io, so = build_harness()
    wd = scratch("C05")
    deep = dict(L=16 if not rep.thorough else 22, ctxs=[1, 2], els=[1, 12], args=[0, 1], strats=["all", "once"],
                envs=["unset"], dirs=["d1", "d2/x"], dims=list(range(1, 13)), tags=list(range(1, 60)))
    ss = gen(rep, wd, "g", deep, simulate=400 if rep.thorough else 150)
    def protocol(s):
        """generated code ends an invocation once"""
        opened, res = {}, []
        for o in s:
            if o["op"] == "enter":
                opened[o["c"]] = True
            if o["op"] == "end" and not opened.pop(o["c"], False):
                continue
            res.append(o)
        return res
    ss = [protocol(s) for s in ss]
    ss = [s for s in ss if any(o["op"] == "cap" for o in s) and s[-1]["op"] != "cap"][:120 if rep.thorough else 14]
    # an index larger than one stream buffer, and a data file larger than it
    big = [dict(op="init", c=1, name="big", strat="all", env="unset", dir="d1"), dict(op="enter", c=1, el=5)]
    for a in range(110):
        big.append(dict(op="cap", c=1, el=5, arg=a, after=False, type=4, dims=[4, 2], tag=a % 50))
    big.append(dict(op="cap", c=1, el=5, arg=0, after=True, type=4, dims=[4, 3000], tag=3))
    big.append(dict(op="end", c=1))
    # two invocations one after the other
    two = [dict(op="init", c=1, name="two", strat="all", env="unset", dir="d1")]
    for k in range(3):
        two += [dict(op="enter", c=1, el=5), dict(op="cap", c=1, el=5, arg=0, after=False, type=4, dims=[8], tag=k),
                dict(op="cap", c=1, el=5, arg=1, after=True, type=4, dims=[4, 10], tag=k + 9), dict(op="end", c=1)]
    ss = [two, big] + ss
    env = {"LD_PRELOAD": so}
    base = execute(exe, wd, [dict(ops=s, fault="none:0") for s in ss], args=["nodisk"], env=env)
    # execute() keeps chunks together: recover the order by the calls
    byops = {json.dumps([[o.get(k) for k in ("op", "c", "el", "arg", "after", "dims", "tag", "name")] for o in r["ops"]]): r for r in base}
    runs = []
    for s in ss:
        k = json.dumps([[o.get(k) for k in ("op", "c", "el", "arg", "after", "dims", "tag", "name")] for o in s])
        if k not in byops:
            rep.violation("a fault-free recording run did not complete", s)
            continue
        r = byops[k]
        r["kind"] = "none"
        n = len(r["io"])
        pts = range(1, n + 1) if n < 80 or rep.thorough else sorted(set(list(range(1, 12)) + list(range(n - 25, n + 1))))
        for i in pts:
            for m in ("fail", "kill", "killafter", "killhalf", "short"):
                if m in ("killhalf", "short") and r["io"][i - 1][0] != "write":
                    continue
                runs.append(dict(ops=s, fault="%s:%d" % (m, i)))
    if rep.violations:
        rep.coverage.update(evaluations=len(ss), distinct_nontrivial=0, rule="")
        return rep.finish()
    recs = []
    for m in ("fail", "kill", "short"):
        sel = [x for x in runs if x["fault"].startswith(m)]
        rs = execute(exe, wd, sel, args=["nodisk"], env=env)
        for r in rs:
            r["kind"] = m
        recs += rs
    recs += base
    hit = sum(1 for r in recs if r["status"] == 77 or any(x[0] == "FAILED" for x in r["io"]))
    if hit < len(runs) // 2:
        raise CheckError("fault injection did not take effect (%d of %d)" % (hit, len(runs)))
    for r in recs:
        r["io"] = r["io"][-60:]
    validate(rep, wd, recs, "NoDangling NothingLost Reported NoSpurious", "CaptureFault", "interrupted run")
    rep.coverage["evaluations"] = len(recs)
    rep.coverage["distinct_nontrivial"] = hit
    rep.coverage["rule"] = ("one run per script, file operation and fault kind (failing operation, process ended before, after or "
                            "in the middle of it, short write); non-trivial: the fault took effect")
    rep.sample(dict(io=base[0]["io"]))
    rep.sample(runs[len(runs) // 2]["fault"])
    rep.assumptions.append("file operations are interposed at the C library interface used by the C++ stream library; "
                           "a crash is the end of the process, not loss of unsynced pages")
    return rep.finish()


main(run)
