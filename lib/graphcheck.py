from vlib import *

FLAGS = ["-std=c++20", "-g1", "-O1", "-I" + repo("sdfg/include"), "-w"]


def build_harness():
    srcs = [repo("sdfg/src/graph", f) for f in sorted(os.listdir(repo("sdfg/src/graph"))) if f.endswith(".cpp")]
    objs = compile_many(srcs + [os.path.join(HARNESS, "graph_harness.cpp")], FLAGS, "graph")
    return link(objs, os.path.join(BUILD, "bin", "graph_harness"), [])


def check(prop, mode, inv, quick, thorough):
    rep = Report(prop, "model_checking")
    exe = build_harness()
    wd = scratch(prop)
    all4, nrand, maxn = thorough if rep.thorough else quick
    rc, out, err = run_harness([exe, mode, str(rep.seed), str(all4), str(nrand), str(maxn)], 300)
    if rc != 0:
        rep.violation("the graph library crashed or did not terminate on an enumerated graph (rc=%s): %s"
                      % (rc, err[-500:]), {"mode": mode, "last": out.splitlines()[-1:]})
        rep.coverage.update(states=0, transitions=0, traces_validated_against_impl=0)
        return rep.finish()
    trace = os.path.join(wd, "trace.ndjson")
    with open(trace, "w") as fh:
        fh.write(out)
    lines = out.splitlines()
    law = tlc_checked("GraphLaws", "INIT Init\nNEXT Next\nINVARIANT Laws\nCONSTANT N = 3\n", os.path.join(wd, "laws"))
    if law.violated:
        raise CheckError("the definitions violate their own laws\n" + law.out[-3000:])
    rep.tlc(law)
    r = tlc_checked("GraphTrace", "SPECIFICATION Spec\nINVARIANT %s\n" % inv, os.path.join(wd, "tr"),
                    env={"TRACE": trace}, timeout=780)
    rep.tlc(r)
    if r.violated:
        m = re.findall(r"^(?:/\\ )?i = (\d+)", r.out, re.M)
        rec = lines[int(m[-1]) - 1] if m else "?"
        rep.violation("what the implementation answered for this graph is not what %s allows:\n%s\n%s"
                      % (inv, rec[:1500], r.out[-600:] if not m else ""), rec)
    else:
        if r.distinct != len(lines):
            raise CheckError("only %d of %d records were examined" % (r.distinct, len(lines)))
    rep.coverage["traces_validated_against_impl"] = r.distinct
    rep.coverage["graphs"] = len(lines)
    rep.coverage["exhaustive"] = True
    for k in (3, len(lines) // 2, len(lines) - 1):
        rep.sample(json.loads(lines[k]))
    rep.assumptions.append("exhaustive only for graphs of up to 3 vertices (4 without self-loops where all4=1); "
                           "larger graphs are random or structured samples")
    return rep.finish()
