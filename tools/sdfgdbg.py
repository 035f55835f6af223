"""Developer aid: pretty-printing dumps and finding the pass after which a program differs."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from sdfgcheck import *
from sdfggen import *

SIMPLIFY = ("DotExpansionPass SymbolPromotion dataflow DeadDataElimination dce SymbolPropagation DeadDataElimination dce "
            "fix:CommonAssignmentElimination DeadDataElimination dce SymbolPropagation fix:ConstantPropagation WhileToForConversion "
            "SymbolPropagation fix:ConditionEliminationPass LoopNormalizationPass LoopNormalizationPass SymbolPropagation "
            "DeadDataElimination dce memlet_combine code_motion PointerEvolution LoopNormalizationPass TypeMinimizationPass "
            "TypeMinimizationPass SymbolPropagation dce DeadDataElimination For2MapPass code_motion DeadDataElimination dce dataflow map_fusion").split()


def ex(e):
    k = e["k"]
    if k == "n":
        return str(e["v"])
    if k == "s":
        return e["s"]
    if k in ("+", "*", "<", "<=", "==", "!=", "and", "or", "^"):
        return "(" + (" %s " % k).join(ex(a) for a in e["a"]) + ")"
    if "a" in e:
        return k + "(" + ", ".join(ex(a) for a in e["a"]) + ")"
    return str(e)


def pl(p):
    if p.get("k") is True:
        return str(p.get("n", p))
    if p.get("v"):
        return p["c"]
    return "%s[%s]" % (p["c"], ex(p["off"]))


def show(d, i=None, ind=0, out=None):
    top = out is None
    out = [] if top else out
    i = d["root"] if i is None else i
    e = d["els"][i - 1]
    s = "  " * ind
    k = e["k"]
    if k == "seq":
        for c, t in zip(e["ch"], e["tr"]):
            show(d, c, ind, out)
            for a in t:
                out.append(s + "  ~ %s := %s" % (a["s"], ex(a["e"])))
    elif k == "block":
        if not e["ops"]:
            out.append(s + "-")
        for o in e["ops"]:
            if o["op"] == "t":
                out.append(s + "%s = %s(%s)" % (", ".join(pl(x) for x in o["outs"]), o["code"], ", ".join(pl(x) for x in o["ins"])))
            elif o["op"] == "ref":
                out.append(s + "%s = &%s" % (o["dst"], pl(o["src"])))
            else:
                out.append(s + str({a: b for a, b in o.items() if a != "id"})[:300])
        if len(e["ops"]) > 1:
            out.append(s + "--")
    elif k == "if":
        for c in e["cs"]:
            out.append(s + "if " + ex(c["c"]))
            show(d, c["b"], ind + 1, out)
    elif k in ("for", "map"):
        out.append(s + "%s #%d %s = %s; %s; %s" % (k, e["eid"], e["iv"], ex(e["init"]), ex(e["cond"]), ex(e["upd"])))
        show(d, e["b"], ind + 1, out)
    elif k == "while":
        out.append(s + "while")
        show(d, e["b"], ind + 1, out)
    else:
        out.append(s + k + " " + e.get("data", ""))
    return "\n".join(out)


def equiv(cases, any_=True):
    wd = scratch("dbg")
    f = os.path.join(wd, "c.json")
    json.dump(cases, open(f, "w"))
    r = run_tlc("SdfgEquiv", "SPECIFICATION Spec\n", wd, env={"CASES": f})
    if r.rc:
        print(r.out[-3000:])
    o = re.sub(r"\s+", " ", r.out)
    return re.findall(r'<< ?"BAD", ("?[\w:.-]+"?), (\d+), "(\w+)", (.*?) >>(?= <<|$| \d| Model| Progress| Finished| The)', o)


def bisect(prog, inputs, acts=None):
    exe = os.path.join(BUILD, "bin", "sdfg_harness")
    acts = acts or [dict(a="pass", name=n) for n in SIMPLIFY]
    rs = run_lines(exe, [dict(id=i, prog=prog, acts=acts[:i]) for i in range(len(acts) + 1)])
    cases = []
    for i, r in enumerate(rs):
        if "after" not in r:
            print("step", i, acts[i - 1], str(r)[:300])
            break
        cases.append(dict(id=i, P=prep(r["before"]), Q=prep(r["after"]), inputs=inputs, fuel=900, any=True))
    bad = equiv(cases)
    ids = sorted({int(b[0].strip('"')) for b in bad})
    if not ids:
        print("no difference")
        return None
    i = ids[0]
    print("=== first different after step", i, acts[i - 1], "all:", ids)
    print(show(rs[i - 1]["after"]))
    print("=== after")
    print(show(rs[i]["after"]))
    for b in bad:
        if int(b[0].strip('"')) == i:
            print("input", inputs[int(b[1]) - 1]["v"], b[2])
    return i


if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    i = int(sys.argv[2])
    prog = d["lines"][i]["prog"]
    rng = random.Random(i)
    ins = [make_input(prog, rng, dict(n=a, m=b)) for a, b in ((3, 2), (0, 1), (2, 4))]
    bisect(prog, ins, None if len(sys.argv) < 4 else json.loads(sys.argv[3]))
    cleanup()
