"""S07: state machines (control-flow graphs) and the structured programs docc makes of them."""
from sdfgcheck import *
from sdfggen import *
import itertools

CELLS = 48


def graphs(rep, n, r, k):
    """Every control-flow graph of CfgGen.tla: [[targets of state 1], ...], targets above n are return states."""
    wd = scratch("cfg%d%d" % (n, k))
    cfg = "SPECIFICATION Spec\nINVARIANT Show\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d R=%d K=%d\n" % (n, r, k)
    res = tlc_checked("CfgGen", cfg, wd, heap="6g", timeout=600)
    if res.violated:
        raise CheckError("TLC stopped:\n" + res.out[-3000:])
    o = re.sub(r"\s+", " ", res.out)
    out = []
    for m in re.findall(r'<< ?"CFG", << ?(.*?) ?>> ?>>(?= <<|$| [A-Z])', o):
        g = [[int(x) for x in re.findall(r"\d+", t)] for t in re.findall(r"<<([\d, ]*)>>", "<<" + m + ">>" if not m.startswith("<<") else m)]
        out.append(g)
    rep.add("graphs_enumerated", len(out))
    return out


def machine(g, n, rng, plain=False):
    """A program over the graph that records the states it visits, and branches on what it reads (or on its counter)."""
    N = len(g)
    returns = sorted({t - n for e in g for t in e if t > n})
    pos = {i: i for i in range(1, N + 1)}
    for k, r in enumerate(returns):
        pos[n + r] = N + 1 + k
    states, out = [], []
    for s, targets in enumerate(g, 1):
        b, own = Blk(), plain or rng.random() < 0.75
        by_counter = not plain and len(targets) == 2 and rng.random() < 0.3
        if own:
            c, tl, a = b.node(const=str(s), t="i64"), b.node(tl="assign", ins=["_in"]), b.node(acc="T")
            b.edges += [dict(s=c, d=tl, dc="_in", t="i64"), dict(s=tl, sc="_out", d=a, sub=["t"], t={"ptr": "i64"})]
        read = len(targets) > 1 and not by_counter
        if read:
            d, tl, a = b.node(acc="D"), b.node(tl="assign", ins=["_in"]), b.node(acc="x")
            b.edges += [dict(s=d, d=tl, dc="_in", sub=["p"], t={"ptr": "i64"}), dict(s=tl, sc="_out", d=a, t="i64")]
        states.append(dict(nodes=b.nodes, edges=b.edges))
        step = (lambda e: e + [["p", ["+", "p", 1]]]) if read else (lambda e: e)
        lim = rng.randint(1, 4)
        for i, t in enumerate(targets):
            e = dict(s=s, d=pos[t], tr=step([["t", ["+", "t", 1]]]) if plain or rng.random() < 0.8 else step([]))
            if not plain and rng.random() < 0.2:
                e["tr"] = e["tr"] + [["y", ["+", ["*", 2, "y"], s * 3 + i]]]
            if len(targets) == 2 and by_counter:
                e["c"] = [["<", "t", lim], [">=", "t", lim]][i]
            elif len(targets) == 2:
                e["c"] = [["==", "x", 0], ["!=", "x", 0]][i]
            elif len(targets) == 3:
                e["c"] = [["==", "x", 0], ["==", "x", 1], [">", "x", 1]][i]
            out.append(e)
    for r in returns:
        states.append(dict(data="t") if r == 1 else dict(data="y") if not plain and rng.random() < 0.4 else dict(const=str(90 + r), t="i64"))
    return dict(ret="i64", states=states, out=out,
                containers=[dict(name="D", t={"ptr": "i64"}, arg=True, cells=CELLS), dict(name="T", t={"ptr": "i64"}, arg=True, cells=CELLS)] +
                           [dict(name=c, t="i64", arg=True) for c in ("t", "p", "y")] + [dict(name="x", t="i64")])


def tapes(words):
    """The inputs: what the branches read; a run that reads past the end is not judged."""
    res = []
    for w in words:
        h = [dict(b=8 * len(w), sz=8, fill=0, d=list(w)), dict(b=8 * CELLS, sz=8, fill=0, d=[0] * CELLS)]
        res.append(dict(v=dict(D=1500000, T=2500000, t=0, p=0, y=0), h=h))
    return res


def s07():
    rep = Report("S07", "model_checking")
    exe = build_harness()
    t = rep.thorough
    rng = random.Random("S07/%d" % rep.seed)
    jobs = []
    for n, k, take in ((2, 3, None), (3, 2, None), (3, 3, 4000 if t else 500), (4, 2, None if t else 5000)):
        gs = graphs(rep, n, 2, k)
        if take and len(gs) > take:
            gs = rng.sample(gs, take)
        for i, g in enumerate(gs):
            for plain in ((True, False) if n < 4 or t else (rng.random() < 0.6,)):
                jobs.append(dict(id="m%d.%d.%d.%s" % (n, k, i, "p" if plain else "v"), machine=machine(g, n, rng, plain), g=g, n=n))
    rs = run_lines(exe, [dict(id=j["id"], machine=j["machine"]) for j in jobs], timeout=3000 if t else 400)
    eq = Equivalence(rep, fuel=220)
    both = tapes(itertools.product((0, 1), repeat=5))
    some = tapes([[rng.randint(0, 1) for _ in range(7)] for _ in range(10)])
    three = tapes([[rng.randint(0, 2) for _ in range(6)] for _ in range(24)])
    for j, r in zip(jobs, rs):
        rep.add("machines", 1)
        if "crash" in r or "error" in r:
            rep.violation("structuring a control-flow graph: %s" % (r.get("crash") or r.get("error")), dict(graph=j["g"], machine=j["machine"], result=str(r)[:2000]))
        elif r.get("refused"):
            rep.add("refused", 1)
        else:
            inp = three if any(len(e) > 2 for e in j["g"]) else both if j["n"] < 4 else some
            eq.add(j["id"], r["before"], r["after"], inp, dict(what="structuring the control-flow graph %s" % j["g"], machine=j["machine"]), any_order=False)
    eq.run(timeout=3000 if t else 700)
    if rep.coverage.get("machines", 0) - rep.coverage.get("refused", 0) < 300:
        raise CheckError("almost every control-flow graph was refused")
    return rep.finish()
