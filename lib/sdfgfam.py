"""Families of programs shaped for one simplification each: (program, integer inputs, actions) from a random generator."""
from sdfggen import *


def base(rng, ivs=4):
    g = Gen(rng)
    for i in range(ivs):
        g.add("i%d" % i, "i64")
        g.ivs.append("i%d" % i)
    return g


def vis(g):
    """Make the transient scalars visible to the caller."""
    b = []
    for k, c in enumerate(("s", "t", "u")):
        b.append(block("assign", [acc(c, [], F)], acc("A", [k], PF)))
    for k, c in enumerate(("x", "y", "z")):
        b.append(block("assign", [acc(c, [], "i64")], acc("I", [k], PI)))
    return b


def start():
    b = [empty([["x", 1], ["y", 2], ["z", 0]])]
    for k, v in enumerate(("s", "t", "u")):
        b.append(block("assign", [("c", "%d.0" % (k + 1), F)], acc(v, [], F)))
    return b


def prog(g, body):
    return dict(name="f", containers=list(g.cont.values()), root=start() + body + vis(g))


def P(*names):
    return [dict(a="pass", name=n) for n in names]


INTS = [dict(n=3, m=2), dict(n=0, m=1), dict(n=2, m=4)]


# ------------------------------------------------------------------ control flow
def common_assignment(rng):
    """Branches that end with the same or almost the same assignments."""
    g = base(rng)
    g.ivs = []
    out = []
    for _ in range(rng.randint(1, 3)):
        shared = [[s, g.iexpr(2)] for s in rng.sample(["x", "y", "z"], rng.choice([1, 1, 2]))]
        if len(shared) == 2 and (shared[0][0] in flat(["", shared[1][1]]) or shared[1][0] in flat(["", shared[0][1]])):
            shared = shared[:1]
        c = g.cond()
        k = rng.random()
        conds = [c, ["not", c]] if k < 0.6 else [c, True] if k < 0.75 else [c, g.cond()]
        if k > 0.9:
            conds = ["<", ">", "=="]
            conds = [[o, "n", "m"] for o in conds]
        cases = []
        for c in conds:
            b = [g.fblock().stmt() for _ in range(rng.randint(0, 2))]
            tr = [list(a) for a in shared]
            if rng.random() < 0.15:
                tr[0] = [tr[0][0], g.iexpr(1)]
                if len(tr) == 2 and tr[1][0] in flat(["", tr[0][1]]):
                    tr = tr[:1]
            if rng.random() < 0.25 and len(tr) == 1:
                o = rng.choice([s for s in ("x", "y", "z") if s != tr[0][0]])
                if o not in flat(["", tr[0][1]]):
                    tr.append([o, rng.randint(0, 3)])
            b.append(empty(tr))
            cases.append(dict(c=c, body=b))
        s = dict(k="if", cases=cases)
        if rng.random() < 0.3:
            t = g.trans()
            if t:
                s["tr"] = t
        out.append(s)
        out.append(g.fblock().stmt())
        if rng.random() < 0.4:
            out.append(block("assign", [acc(shared[0][0], [], "i64")], acc("I", [rng.randint(5, 8)], PI)))
    return prog(g, out), INTS, P("CommonAssignmentElimination", *rng.choice([[], ["dce"], ["SymbolPropagation", "dce"]]))


def rotated_while(rng):
    """if (i0 < b) do { ... i0 = i0 + c } while (i0 < b): loops as an LLVM front end leaves them."""
    g = base(rng)
    iv = "i0"
    g.ivs = [iv]
    bound = rng.choice(["n", "m", 3, ["+", "n", 1]])
    step = rng.choice([1, 1, 1, 2])
    down = rng.random() < 0.2
    lo = bound if down else rng.choice([0, 0, 1])
    cond = [">", iv, 0] if down else [rng.choice(["<", "<", "<="]), iv, bound]
    upd = ["+", iv, -1 if down else step]
    nested = rng.random() < 0.3
    body = []
    for _ in range(rng.randint(1, 3)):
        body.append(g.fblock().stmt(g.trans() if rng.random() < 0.3 else None))
    if rng.random() < 0.2:
        body.append(block("assign", [acc(iv, [], "i64")], acc(rng.choice(["y", "z"]), [], "i64")))
    if nested:
        g.ivs = [iv, "i1"]
        body.append(up("i1", 0, rng.choice([2, "m", iv]), [g.fblock().stmt()]))
    pos = rng.randint(0, len(body))
    body.insert(pos, empty([[iv, upd]]))
    if rng.random() < 0.2:
        body.insert(rng.randint(0, len(body)), dict(k="if", cases=[dict(c=g.cond(), body=[g.fblock().stmt()])]))
    if rng.random() < 0.08:
        body.insert(rng.randint(0, len(body)), dict(k="if", cases=[dict(c=["==", iv, 2], body=[dict(k=rng.choice(["break", "continue"]))])]))
    yes, no = dict(c=cond, body=[dict(k="continue")]), dict(c=["not", cond], body=[dict(k="break")])
    body.append(dict(k="if", cases=[yes, no] if rng.random() < 0.5 else [no, yes]))
    # with the update at pos, the loop runs while the condition holds after the update; the guard makes the first check
    loop = [empty([[iv, lo]]), dict(k="while", body=body)]
    guard = dict(k="if", cases=[dict(c=cond, body=[dict(k="while", body=body)])])
    out = [empty([[iv, lo]]), guard]
    if rng.random() < 0.3:
        out.append(block("assign", [acc(iv, [], "i64")], acc("z", [], "i64")))
    return prog(g, out), INTS, P("WhileToForConversion", *rng.choice([[], ["LoopNormalizationPass"], ["SymbolPropagation", "dce"], ["ConditionEliminationPass"]]))


def guarded_loop(rng):
    """if (lo < hi) for (iv = lo; iv < hi; ...)"""
    g = base(rng)
    g.ivs = []
    out = []
    for k in range(rng.randint(1, 2)):
        iv = "i%d" % k
        lo = rng.choice([0, 0, 1, "m", "x"])
        hi = rng.choice(["n", ["+", "n", 1], "m", 3])
        cond = ["<", iv, hi]
        g.ivs = [iv]
        loop = for_(iv, lo, cond, ["+", iv, 1], [g.fblock().stmt() for _ in range(rng.randint(1, 2))], kind=rng.choice(["for", "for", "map"]) if False else "for")
        gc = ["<", lo, hi] if rng.random() < 0.8 else ["<", 0, hi]
        s = dict(k="if", cases=[dict(c=gc, body=[loop])])
        g.ivs = []
        if rng.random() < 0.4:
            t = g.trans()
            if t:
                s["tr"] = t
                if rng.random() < 0.5:
                    loop["tr"] = [["z", rng.randint(0, 3)]]
        out.append(s)
        if rng.random() < 0.25:
            out.append(block("assign", [acc(iv, [], "i64")], acc("z", [], "i64")))
            out.insert(0, empty([[iv, 7]]))
        out.append(g.fblock().stmt())
    return prog(g, out), INTS, P("ConditionEliminationPass", *rng.choice([[], ["dce"], ["SequenceFusion", "For2MapPass"]]))


# ------------------------------------------------------------------ data flow
def tasklet_chain(rng):
    """Copies through scalars that are used only inside one block."""
    g = base(rng)
    g.ivs = []
    out = []
    for q in range(rng.randint(1, 3)):
        b = Blk()
        tmps = []
        n = rng.randint(1, 3)
        t = "f64"
        srcs = []
        for j in range(n):
            nm = "q%d_%d" % (q, j)
            g.add(nm, F)
            o = acc(rng.choice(["A", "B"]), [rng.randint(8, 10)], PF) if rng.random() < 0.7 else acc(rng.choice(["s", "t"]), [], F)
            if rng.random() < 0.15:
                o = ("c", "3.0", F)
            d = b.tasklet("assign", [o], [acc(nm, [], F)])[0]
            srcs.append((d, nm))
            tmps.append(nm)
        op = {1: "fp_neg", 2: rng.choice(["fp_add", "fp_sub", "fp_mul"]), 3: "fp_fma"}[n]
        ins = [acc(d, [], F) for d, _ in srcs]
        if n == 2 and rng.random() < 0.3:
            ins[1] = ins[0]
        if n == 1 and rng.random() < 0.5:
            op, ins = "fp_add", [ins[0], ("c", "2.0", F)]
        r = "r%d" % q
        g.add(r, F)
        d = b.tasklet(op, ins, [acc(r, [], F)])[0]
        o = acc("B", [rng.randint(11, 13)], PF) if rng.random() < 0.7 else acc("u", [], F)
        b.tasklet("assign", [acc(d, [], F)], [o])
        out.append(b.stmt())
        if rng.random() < 0.2:
            out.append(block("assign", [acc(rng.choice(tmps + [r]), [], F)], acc("A", [rng.randint(14, 16)], PF)))
    if rng.random() < 0.4:
        g.ivs = []
        out = [up("i0", 0, "n", out)]
    return prog(g, out), INTS, P(*rng.choice([["TaskletFusionPass"], ["dataflow"], ["fix:TaskletFusionPass", "DeadDataElimination"]]))


def block_chain(rng):
    """Straight-line blocks with dependences through scalars and array cells."""
    g = base(rng)
    g.ivs = []
    out = []
    for _ in range(rng.randint(3, 7)):
        out.append(g.fblock().stmt(g.trans() if rng.random() < 0.3 else None) if rng.random() < 0.7 else g.iblock().stmt())
    if rng.random() < 0.4:
        out = [up("i0", 0, "n", out)]
    return prog(g, out), INTS, P(*rng.choice([["BlockFusionPass"], ["fix:BlockFusionPass"], ["dataflow"], ["DeadDataElimination"],
                                              ["SymbolPromotion", "SymbolPropagation"], ["SymbolPromotion", "BlockFusionPass", "DeadDataElimination"]]))


def same_definitions(rng):
    """Two definitions of one container, the first dominating the second."""
    g = base(rng)
    g.ivs = []
    out = [g.iblock().stmt()] if rng.random() < 0.3 else []
    k = rng.random()
    if k < 0.5:
        g.add("c", "i64")
        e = g.iexpr(2)
        first = empty([["c", e]])
        second = empty([["c", e if rng.random() < 0.7 else g.iexpr(1)]])
        if "c" in flat(["", e]):
            second = first
        use = block("assign", [acc("c", [], "i64")], acc("I", [rng.randint(5, 8)], PI))
    else:
        g.add("c", F)
        i = g.idx()
        src = acc("B", [i], PF) if rng.random() < 0.7 else acc("t", [], F)
        op = rng.choice(["assign", "fp_add"])
        one = [src] if op == "assign" else [src, ("c", "2.0", F)]
        two = one if rng.random() < 0.7 else ([acc("B", [g.idx()], PF)] + one[1:])
        first, second = block(op, one, acc("c", [], F)), block(op, two, acc("c", [], F))
        use = block("assign", [acc("c", [], F)], acc("A", [rng.randint(5, 8)], PF))
    mid = []
    for _ in range(rng.randint(0, 2)):
        mid.append(rng.choice([g.fblock().stmt(), g.iblock().stmt(), empty([["y", g.iexpr(1)]])]))
    place = rng.random()
    if place < 0.4:
        body = [up("i0", 0, "n", mid + [second, use])]
    elif place < 0.7:
        body = mid + [dict(k="if", cases=[dict(c=g.cond(), body=[second])]), use]
    else:
        body = mid + [second, use]
    return prog(g, out + [first] + body), INTS, P("fix:ConstantPropagation", *rng.choice([[], ["DeadDataElimination"], ["SymbolPropagation"]]))


def pointer_view(rng):
    """Pointers into other arrays, moved, dereferenced and used."""
    g = base(rng)
    g.ivs = []
    out = []
    for v in ("v", "w"):
        g.add(v, PF)

    def ref(dst, src, off, byte=False):
        b = Blk()
        s, d = b.node(acc=src), b.node(acc=dst)
        t = {"ptr": "i8"} if byte else PF
        b.edges.append(dict(s=s, sc="void", d=d, dc="ref", sub=[off], t=t))
        return b.stmt()

    def use(depth=0):
        p = rng.choice(["v", "v", "w", "A", "B"])
        q = rng.choice(["A", "B", "v", "w"])
        i = rng.randint(0, 4) if p in "vw" else rng.randint(8, 14)
        j = rng.randint(0, 4) if q in "vw" else rng.randint(8, 14)
        if g.ivs and rng.random() < 0.6:
            i = ["+", i, g.ivs[0]]
        return block(rng.choice(["assign", "fp_neg"]), [acc(q, [j], PF)], acc(p, [i], PF)) if rng.random() < 0.6 else \
            block("fp_add", [acc(q, [j], PF), acc(p, [i], PF)], acc(rng.choice(["s", "A", "B"]) if False else p, [i], PF))
    off = rng.choice([8, 9, ["+", "n", 8], ["+", "x", 8]])
    byte = rng.random() < 0.3 and isinstance(off, int)
    out.append(ref("v", rng.choice(["A", "B"]), off * 8 if byte else off, byte))
    out.append(ref("w", rng.choice(["A", "B", "v"]), rng.choice([1, 2, 8, 10])))
    for _ in range(rng.randint(1, 3)):
        out.append(use())
    if rng.random() < 0.4:
        g.ivs = ["i0"]
        out.append(up("i0", 0, rng.choice(["n", 2]), [use() for _ in range(rng.randint(1, 2))] + ([ref("w", "A", ["+", "i0", 9])] if rng.random() < 0.4 else [])))
        g.ivs = []
    if rng.random() < 0.4:
        out.append(empty([["x", g.iexpr(1)]]))
    if rng.random() < 0.4:
        out.append(ref(rng.choice(["v", "w"]), rng.choice(["A", "B"]), rng.choice([8, 11])))
    if rng.random() < 0.3:
        out.append(dict(k="if", cases=[dict(c=g.cond(), body=[ref("v", "B", 9), use()])]))
    for _ in range(rng.randint(1, 3)):
        out.append(use())
    return prog(g, out), INTS, P(*rng.choice([["ReferencePropagation"], ["ReferencePropagation", "DeadReferenceElimination"], ["ByteReferenceElimination"],
                                              ["memlet_combine"], ["TrivialReferenceConversionPass", "ByteReferenceElimination"], ["DeadDataElimination"]]))


def arrays(rng):
    """Transient arrays with one or more dimensions, some of them trivial."""
    g = base(rng)
    k = rng.random()
    dims = [rng.choice([1, 1, 3, 4, 5]) for _ in range(rng.choice([1, 2, 2, 3]))]
    t = F
    for d in reversed(dims):
        t = dict(arr=t, n=d)
    g.cont["T"] = dict(name="T", t=t, arg=False)
    body, ivs = [], []

    def sub(shift=0):
        r = []
        for q, d in enumerate(dims):
            r.append(0 if d == 1 else ("i%d" % q if rng.random() < 0.8 else rng.randint(0, 2)))
        return r
    lin = ["+", 8, 0]
    mul = 1
    lin = 8
    for q in reversed(range(len(dims))):
        if dims[q] > 1:
            lin = ["+", lin, ["*", mul, "i%d" % q]]
            mul *= dims[q]
    if mul > 30:
        return None

    def nest(stmts):
        for q in reversed(range(len(dims))):
            if dims[q] > 1:
                stmts = [up("i%d" % q, 0, dims[q], stmts)]
        return stmts
    out = nest([block("assign", [acc("A", [lin], PF)], acc("T", [0 if d == 1 else "i%d" % q for q, d in enumerate(dims)], t))])
    for _ in range(rng.randint(1, 2)):
        out += nest([block("fp_add", [acc("T", sub(), t), acc("B", [lin], PF)], acc("T", sub(), t))])
    out += nest([block("assign", [acc("T", sub(), t)], acc(rng.choice(["A", "B"]), [lin], PF))])
    if rng.random() < 0.3:
        out.append(block("assign", [acc("T", [0] * len(dims), t)], acc("s", [], F)))
    return prog(g, out), INTS, P(*rng.choice([["TrivialArrayElimination"], ["TrivialArrayElimination", "DeadDataElimination"], ["DeadDataElimination"],
                                              ["dataflow"], ["code_motion"], ["map_fusion"], ["For2MapPass", "MapFusionPass"], ["fix:BlockFusionPass"]]))


def linear(rng):
    """Pointers to arrays: two-dimensional accesses that can be linearized, and linear accesses that can be delinearized."""
    g = base(rng)
    d = rng.choice([3, 4, "m"])
    pt = dict(ptr=dict(arr=F, n=d))
    for a in ("A", "B"):
        g.cont[a]["t"] = PF
    g.cont["C"] = dict(name="C", t=pt, arg=True)
    out = []

    def a2(i, j):
        return acc("C", [i, j], pt)

    def a1(i, j, off=0):
        return acc("C", [["+", ["*", d, i], ["+", j, off]]], PF)
    i, j = "i0", "i1"
    st = []
    for _ in range(rng.randint(1, 3)):
        f = rng.choice([a2, a2, a1])
        k = rng.random()
        if k < 0.4:
            st.append(block("fp_add", [f(i, j), acc("B", [["+", ["+", i, j], 8]], PF)], f(i, j)))
        elif k < 0.7:
            st.append(block("assign", [f(["+", i, rng.choice([0, 1])], j)], acc("A", [["+", ["+", ["*", 3, i], j], 8]], PF)))
        else:
            st.append(block("assign", [acc("A", [["+", ["*", 3, i], ["+", j, 8]]], PF)], f(i, j)))
    out.append(up(i, 0, rng.choice(["n", 2, 3]), [up(j, 0, d if d == "m" else rng.choice([2, 3, d]), st)]))
    if rng.random() < 0.5:
        out.append(up("i2", 0, "n", [block("assign", [a2("i2", 0 if d == "m" else rng.choice([0, 1]))], acc("B", [["+", "i2", 9]], PF))]))
    return prog(g, out), INTS, P(*rng.choice([["MemletLinearizationPass"], ["memlet_combine"], ["For2MapPass"], ["code_motion"], ["StrideMinimization"],
                                              ["MemletLinearizationPass", "For2MapPass"], ["PerfectLoopDistribution"], ["LoopNormalization"]]))


def heap(rng):
    """malloc, use, free."""
    g = base(rng)
    g.add("h", PF)
    g.ivs = []
    size = rng.choice([["*", 8, ["+", "n", 4]], 64, ["*", 8, "m"], ["*", 8, ["+", "x", 5]]])
    alloc = rng.choice(["malloc", "malloc", "alloca"])

    def mk(lib, rd):
        b = Blk()
        if lib == "free":
            a, l, c = b.node(acc="h"), b.node(lib="free"), b.node(acc="h")
            b.edges.append(dict(s=a, d=l, dc="_ptr", sub=[], t=PF))
            b.edges.append(dict(s=l, sc="_ptr", d=c, sub=[], t=PF))
        else:
            l, c = b.node(lib=lib, size=size), b.node(acc="h")
            b.edges.append(dict(s=l, sc="_ret", d=c, sub=[], t=PF))
        return b.stmt()
    out = []
    if rng.random() < 0.2:
        out.append(g.fblock().stmt())
    a = mk(alloc, None)
    out.append(a)
    k = rng.choice([2, "m"]) if size in (64,) or size[2] == "m" else rng.choice(["n", 2])
    out.append(up("i0", 0, k, [block("assign", [acc("A", [["+", "i0", 8]], PF)], acc("h", ["i0"], PF))]))
    if rng.random() < 0.5:
        out.append(up("i0", 0, k, [block("fp_add", [acc("h", ["i0"], PF), acc("B", [["+", "i0", 8]], PF)], acc("h", ["i0"], PF))]))
    if rng.random() < 0.2:
        out.append(mk("free", None) if alloc == "malloc" else g.fblock().stmt())
        out.append(mk(alloc, None))
        out.append(up("i0", 0, k, [block("assign", [acc("B", [["+", "i0", 8]], PF)], acc("h", ["i0"], PF))]))
    out.append(up("i0", 0, k, [block("assign", [acc("h", ["i0"], PF)], acc("B", [["+", "i0", 12]], PF))]))
    if alloc == "malloc" and rng.random() < 0.8:
        out.append(mk("free", None))
    out.append(g.fblock().stmt())
    return prog(g, out), INTS, P(*rng.choice([["AllocationManagementPass"], ["AllocationManagementPass", "dce"], ["DeadDataElimination"], ["simplify"]]))


# ------------------------------------------------------------------ loops and symbols
def producer_consumer(rng):
    """Maps that hand an array from one to the next."""
    g = base(rng)
    g.cont["T"] = dict(name="T", t=dict(arr=F, n=24) if rng.random() < 0.6 else PF, arg=False)
    if g.cont["T"]["t"] == PF:
        g.cont["T"]["t"] = dict(ptr=F, heap=24 * 8)
    tt = g.cont["T"]["t"]
    tt = PF if "ptr" in tt else tt
    hi = rng.choice(["n", "m", 4])
    k = rng.choice(["map", "map", "for"])
    off = rng.choice([0, 0, 2])
    pre = [block("assign", [("c", "1.0", F)], acc("T", ["i3"], tt))]
    out = [up("i3", 0, 24, pre)] if rng.random() < 0.4 else []
    p = [block(rng.choice(["fp_add", "fp_mul"]), [acc("A", [["+", "i0", 8 + rng.randint(-1, 1)]], PF), ("c", "2.0", F)], acc("T", [["+", "i0", off]], tt))]
    if rng.random() < 0.2:
        p.append(block("assign", [acc("T", [["+", "i0", off]], tt)], acc("B", [["+", "i0", 20]], PF)))
    out.append(up("i0", 0, hi, p, kind=k))
    if rng.random() < 0.3:
        out.append(g.fblock().stmt() if rng.random() < 0.5 else block("assign", [("c", "5.0", F)], acc("T", [off + 1], tt)))
    d = rng.choice([0, 0, 0, 1, -1])
    ro = max(0, off + d)
    c = [block("fp_add", [acc("T", [["+", "i1", ro]], tt), acc("B", [["+", "i1", 8]], PF)], acc(rng.choice(["B", "B", "A"]), [["+", "i1", rng.choice([8, 12])]], PF))]
    if rng.random() < 0.2:
        c.append(block("fp_add", [acc("T", [["+", "i1", off]], tt), ("c", "1.0", F)], acc("T", [["+", "i1", off]], tt)))
    h2 = hi if rng.random() < 0.8 else rng.choice(["n", "m", 2])
    if not out[:1] or out[0].get("iv") != "i3":
        # everything that is read has been written
        h2, c = hi, [block("fp_add", [acc("T", [["+", "i1", off]], tt), acc("B", [["+", "i1", 8]], PF)], acc("B", [["+", "i1", rng.choice([8, 12])]], PF))]
    out.append(up("i1", 0, h2, c, kind=rng.choice([k, k, "map"]) if c[0]["nodes"][-1].get("acc") == "B" and len(c) == 1 and False else k if k == "for" else "for"))
    if rng.random() < 0.4:
        out.append(up("i2", 0, 4, [block("assign", [acc("T", [["+", "i2", off]], tt)], acc("A", [["+", "i2", 25]], PF))]))
        if not out[0].get("iv") == "i3":
            out.pop()
    return prog(g, out), INTS, P(*rng.choice([["For2MapPass", "MapFusionPass"], ["For2MapPass", "map_fusion"], ["For2MapPass", "map_fusion", "DeadDataElimination"],
                                              ["simplify"], ["code_motion"]]))


def truncs(rng):
    """Indices and conditions computed in 32 bits."""
    g = base(rng)
    g.ivs = ["i0"]
    e = rng.choice(["i0", ["+", "i0", 1], ["*", 2, "i0"], ["-", "i0", 1], ["-", 2, "i0"], ["+", "i0", "m"], ["*", "i0", "i0"]])
    hi = rng.choice(["n", 3, 3, 4])
    cond = rng.choice([["<", "i0", ["trunc", hi]], ["<", ["trunc", "i0"], hi], ["<", ["trunc", ["+", "i0", 1]], hi], ["<", "i0", hi], ["<", "i0", hi]])
    body = [block("fp_add", [acc("A", [["+", ["trunc", e], 8]], PF), ("c", "1.0", F)], acc("A", [["+", ["zext", ["trunc", e]] if rng.random() < 0.3 else ["trunc", e], 8]], PF))]
    if rng.random() < 0.5:
        body.append(block("assign", [acc("A", [["+", ["trunc", "i0"], 9]], PF)], acc("B", [["+", "i0", 8]], PF)))
    out = [for_("i0", rng.choice([0, 0, 1, -1]), cond, ["+", "i0", 1], body)]
    return prog(g, out), INTS, P(*rng.choice([["TypeMinimizationPass"], ["TypeMinimizationPass", "For2MapPass"], ["LoopNormalizationPass", "TypeMinimizationPass"]]))


def iterator(rng):
    """A pointer that walks along an array in a loop."""
    g = base(rng)
    g.add("p", PF)
    g.ivs = ["i0"]
    b = Blk()
    s, d = b.node(acc="A"), b.node(acc="p")
    b.edges.append(dict(s=s, sc="void", d=d, dc="ref", sub=[rng.choice([8, 9])], t=PF))
    out = [b.stmt()]
    m = Blk()
    s, d = m.node(acc="p"), m.node(acc="p")
    step = rng.choice([8, 8, 8, 16])
    m.edges.append(dict(s=s, sc="void", d=d, dc="ref", sub=[step], t={"ptr": "i8"}))
    body = []
    for _ in range(rng.randint(1, 2)):
        body.append(rng.choice([block("assign", [acc("B", [["+", "i0", 8]], PF)], acc("p", [0], PF)),
                                block("fp_add", [acc("p", [0], PF), ("c", "1.0", F)], acc("p", [0], PF)),
                                block("assign", [acc("p", [0], PF)], acc("B", [["+", "i0", 12]], PF))]))
    body.append(m.stmt())
    if rng.random() < 0.15:
        body.append(block("assign", [acc("p", [0], PF)], acc("s", [], F)))
    lo = rng.choice([0, 0, 1, "m"])
    loop = for_("i0", lo, ["<", "i0", rng.choice(["n", ["+", lo, 3]])], ["+", "i0", 1], body)
    out.append(loop)
    if rng.random() < 0.15:
        out.append(block("assign", [acc("p", [0], PF)], acc("s", [], F)))
    return prog(g, out), INTS, P("PointerEvolution", *rng.choice([[], ["LoopNormalizationPass"], ["ReferencePropagation", "DeadReferenceElimination"]]))


def evolving_symbols(rng):
    """Symbols that advance with a loop, as LLVM leaves induction variables."""
    g = base(rng)
    body = []
    g.ivs = ["i0"]
    e = rng.choice([["+", "x", 1], ["+", "x", 2], ["-", "x", 1], ["*", 2, "x"], ["+", "x", "y"], ["+", "i0", 1], ["+", "x", "i0"], "y", ["+", "y", 1]])
    body.append(block("assign", [("c", "7.0", F)], acc("A", [["+", "x", 12]], PF)) if rng.random() < 0.5 else g.fblock().stmt())
    body.insert(rng.randint(0, len(body)), empty([["x", e]]))
    if rng.random() < 0.4:
        body.append(empty([["y", rng.choice([["+", "y", 1], ["+", "x", 1], "i0", 3])]]))
    if rng.random() < 0.4:
        body.append(block("assign", [acc("x", [], "i64")], acc("I", [["+", "i0", 8]], PI)))
    if rng.random() < 0.3:
        g.ivs = ["i0", "i1"]
        body.append(up("i1", 0, rng.choice([2, "m", "i0"]), [g.fblock().stmt(), empty([["z", ["+", rng.choice(["z", "x"]), 1]]])]))
    out = [empty([["x", rng.choice([0, 1, "m"])]]), up("i0", rng.choice([0, 1]), rng.choice(["n", 3]), body)]
    return prog(g, out), INTS, P(*rng.choice([["SymbolPropagation"], ["SymbolPropagation", "dce"], ["LoopNormalizationPass", "SymbolPropagation"],
                                              ["DeadDataElimination"], ["For2MapPass"], ["simplify"], ["SequenceFusion", "SymbolPropagation", "DeadDataElimination"]]))


def nests(rng):
    """Perfect and imperfect nests for distribution, stride minimization, block hoisting and sorting."""
    g = base(rng)
    i, j = "i0", "i1"
    W = 6

    def at(c, di=0, dj=0, sw=False):
        a, b = (j, i) if sw else (i, j)
        return acc(c, [["+", ["+", ["*", W, a], b], 8 + W * di + dj]], PF)

    def stmt():
        k = rng.random()
        c, d = rng.choice(["A", "B"]), rng.choice(["A", "B"])
        if k < 0.4:
            return block("fp_add", [at(c, rng.choice([0, 0, -1, 1]), rng.choice([0, 0, -1, 1]), rng.random() < 0.3), ("c", "1.0", F)], at(d, 0, 0, rng.random() < 0.3))
        if k < 0.6:
            return block("fp_mul", [acc("s", [], F), at(c)], at(d))
        if k < 0.8:
            return block("fp_add", [acc("t", [], F), at(c)], acc("t", [], F))
        return block("assign", [at(c)], acc(rng.choice(["s", "t"]), [], F))
    inner = [stmt() for _ in range(rng.randint(1, 3))]
    body = []

    def outer_stmt():
        g.ivs = [i]
        return block("fp_add", [acc("B", [["+", i, 8]], PF), ("c", "1.0", F)], acc(rng.choice(["A", "B", "s"]) if rng.random() < 0.7 else "t", [["+", i, 9]] if False else [], F)
                     ) if False else rng.choice([block("assign", [("c", "0.0", F)], acc("t", [], F)),
                                                 block("assign", [acc("A", [["+", i, 30]], PF)], acc("s", [], F)),
                                                 block("assign", [acc("t", [], F)], acc("B", [["+", i, 30]], PF)),
                                                 block("fp_add", [acc("B", [["+", i, 8]], PF), ("c", "1.0", F)], acc("A", [["+", i, 30]], PF))])
    if rng.random() < 0.5:
        body.append(outer_stmt())
    inner = with_jump(rng, inner, j, 0.1)
    body.append(up(j, rng.choice([0, 0, 1, i]), rng.choice(["m", 3]), inner, kind="for"))
    if rng.random() < 0.4:
        body.append(outer_stmt())
    if rng.random() < 0.2:
        body.append(up("i2", 0, "m", [block("fp_add", [acc("A", [["+", "i2", 8]], PF), ("c", "3.0", F)], acc("B", [["+", "i2", ["+", i, 8]]], PF))]))
    out = [up(i, 0, rng.choice(["n", 3]), with_jump(rng, body, i, 0.1))]
    return prog(g, out), [dict(n=3, m=2), dict(n=0, m=1), dict(n=2, m=3)], P(*rng.choice([["For2MapPass"], ["PerfectLoopDistribution"], ["StrideMinimization"], ["For2MapPass", "PerfectLoopDistribution"],
                                              ["For2MapPass", "StrideMinimization"], ["code_motion"], ["LoopNormalization"], ["LoopNormalization", "For2MapPass"],
                                              ["BlockHoistingPass", "BlockSortingPass"], ["simplify"]]))


def xnest(rng):
    """Perfect nests of depth two with accesses at various distances: material for the loop transformations."""
    g = base(rng)
    i, j = "i0", "i1"
    W = 8
    used = rng.sample(["A", "B"], rng.choice([1, 2, 2]))

    def at(c, w=False):
        k = rng.random()
        di, dj = rng.choice([0, 0, 0, 1, -1]), rng.choice([0, 0, 0, 1, -1, 2])
        if k < 0.6:
            return acc(c, [["+", ["+", ["*", W, i], j], 12 + W * di + dj]], PF)
        if k < 0.72:
            return acc(c, [["+", j, 12 + dj]], PF)
        if k < 0.84:
            return acc(c, [["+", i, 12 + di]], PF)
        if k < 0.9:
            return acc(c, [["+", ["+", i, j], 12]], PF)
        if k < 0.94:
            return acc(c, [["+", ["idiv", j, 2], 12]], PF)
        if k < 0.97:
            return acc(c, [["+", ["*", 2, j], 12]], PF)
        return acc(c, [rng.choice([12, ["+", "m", 12]])], PF)

    def stmt():
        k = rng.random()
        d = at(used[0], True)
        if k < 0.4:
            return block("fp_add", [at(used[-1]), ("c", "1.0", F)], d)
        if k < 0.6:
            return block("fp_add", [d, at(used[-1])], d)
        if k < 0.7:
            return block("assign", [acc(rng.choice([i, j]), [], "i64")], acc("I", [["+", rng.choice([i, j]), 8]], PI))
        if k < 0.8:
            return block("fp_add", [acc("s", [], F), at(used[-1])], acc("s", [], F))
        if k < 0.9:
            return block("assign", [("c", "0.0", F)], d)
        return block("assign", [at(used[-1])], d)
    body = [stmt() for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.1:
        body.insert(rng.randint(0, len(body)), dict(k="if", cases=[dict(c=["<", i, j], body=[stmt()])]))
    if rng.random() < 0.1:
        body.append(empty([["x", ["+", i, j]]]))
    if rng.random() < 0.15:     # a value that is passed on inside the body only
        g.add("l", F)
        body.insert(0, block("assign", [at(used[-1])], acc("l", [], F)))
        body.insert(rng.randint(1, len(body)), block("fp_add", [acc("l", [], F), ("c", "1.0", F)], at(used[0], True)))

    def loop(iv, b):
        if iv == j and rng.random() < 0.06:
            return for_(iv, rng.choice([0, 1, i]), ["<", iv, rng.choice([3, 4, "n", ["+", "n", i]])], ["+", iv, rng.choice([["+", i, 1], ["+", i, 2]])], b)
        lo = rng.choice([0, 0, 0, 1, 2, "x"])
        hi = rng.choice(["n", 3, 4, "m", ["+", "n", 1], ["min", "n", 3]])
        k = rng.random()
        if k < 0.75:
            return up(iv, lo, hi, b)
        if k < 0.85:
            return for_(iv, lo, ["<=", iv, hi], ["+", iv, 1], b)
        if k < 0.93:
            return up(iv, lo, hi, b, step=2)
        return for_(iv, lo, ["and", ["<", iv, hi], ["<", iv, 3]], ["+", iv, 1], b)
    n = [loop(j, with_jump(rng, body, j, 0.12))]
    if rng.random() < 0.15:
        n.insert(rng.randint(0, 1), stmt()) if False else n.append(block("assign", [acc("B", [["+", i, 40]], PF)], acc("t", [], F)))
    out = [loop(i, with_jump(rng, n, i, 0.05))]
    if rng.random() < 0.2:
        out.append(block("assign", [acc(rng.choice([i, j]), [], "i64")], acc("z", [], "i64")))
        out.insert(0, empty([[i, 5], [j, 6]]))
    if rng.random() < 0.2:
        out[-1].setdefault("tr", [["y", 1]])
    return prog(g, out), INTS, P("For2MapPass")


def index_chain(rng):
    """Blocks that compute integers, pass them on inside the block, and blocks that use them as indices."""
    g = base(rng)
    g.ivs = []
    syms = ["x", "y", "z"]
    out = []
    for _ in range(rng.randint(3, 6)):
        k = rng.random()
        v, w = rng.sample(syms, 2)
        if k < 0.3:      # v := ..., used again in the same block
            b = Blk()
            src = rng.choice([("c", str(rng.randint(0, 4)), "i64"), acc(w, [], "i64")])
            d = b.tasklet("assign", [src], [acc(v, [], "i64")])[0]
            for q in range(rng.randint(1, 2)):
                b.tasklet("assign", [acc(d, [], "i64")], [acc("I", [rng.randint(5, 9)], PI) if rng.random() < 0.6 else acc(w, [], "i64")])
                if q == 0 and rng.random() < 0.5:
                    break
            out.append(b.stmt())
        elif k < 0.45:
            out.append(block("assign", [rng.choice([("c", str(rng.randint(0, 4)), "i64"), acc(w, [], "i64")])], acc(v, [], "i64")))
        elif k < 0.75:   # v as an index of a read or a write
            a, c = acc(rng.choice(["A", "B"]), [["+", v, 12]], PF), acc(rng.choice(["A", "B"]), [rng.randint(18, 22)], PF)
            if rng.random() < 0.5:
                a, c = c, a
            out.append(block("assign", [a], c) if rng.random() < 0.6 else block("fp_add", [a, ("c", "1.0", F)], c))
        elif k < 0.9:
            out.append(block("assign", [acc("s", [], F) if rng.random() < 0.5 else ("c", "5.0", F)], acc("A", [["+", v, 12]], PF)))
        else:
            out.append(block("int_add", [acc(v, [], "i64"), ("c", "1", "i64")], acc("I", [["+", w, 9]], PI)))
    if rng.random() < 0.3:
        out = [up("i0", 0, "n", out)]
    return prog(g, out), INTS, P(*rng.choice([["BlockFusionPass"], ["fix:BlockFusionPass"], ["BlockFusionPass"], ["BlockFusionPass", "DeadDataElimination"],
                                              ["SymbolPromotion", "BlockFusionPass"], ["dataflow"], ["BlockHoistingPass", "BlockSortingPass"]]))


def conditional_symbols(rng):
    """Symbols defined from symbols that change afterwards, perhaps only in a branch or in a loop."""
    g = base(rng)
    g.ivs = []
    g.add("c", "i64")
    g.add("d", "i64")
    src = rng.choice(["x", "y"])
    e = rng.choice([["*", 2, src], ["+", src, 1], src, ["+", src, "z"], ["-", src, "m"], ["+", ["*", 3, src], "n"]])
    out = [empty([["c", e]])]

    def change(k=None):
        return empty([[src, rng.choice([["+", src, 1], ["+", src, 2], ["*", 2, src], ["-", src, 1], "z", 5])]])

    def maybe(stmts):
        cs = rng.choice([[">", "n", 2], ["==", "m", 1], ["<", "m", "n"], ["!=", "n", 0]])
        if rng.random() < 0.4:
            other = [change()] if rng.random() < 0.4 else [g.fblock().stmt()]
            return dict(k="if", cases=[dict(c=cs, body=stmts), dict(c=["not", cs], body=other)])
        return dict(k="if", cases=[dict(c=cs, body=stmts)])
    for _ in range(rng.randint(1, 2)):
        k = rng.random()
        if k < 0.4:
            out.append(maybe([change()]))
        elif k < 0.6:
            out.append(change())
        elif k < 0.8:
            out.append(up("i0", 0, rng.choice(["n", "m", 2]), [change()]))
        else:
            out.append(maybe([change(), empty([["d", rng.choice(["c", ["+", "c", 1], src])]])]))
    use = rng.random()
    if use < 0.4:
        out.append(empty([["d", rng.choice(["c", ["+", "c", "d"], ["+", "c", src]])]]))
    elif use < 0.6:
        out.append(maybe([empty([["d", "c"]])]))
    elif use < 0.8:
        out.append(up("i0", 0, "n", [empty([["d", "c"]]), block("assign", [acc("d", [], "i64")], acc("I", [["+", "i0", 9]], PI))]))
    else:
        out.append(block("assign", [("c", "4.0", F)], acc("A", [["+", rng.choice(["n", "m"]), 12]], PF)))
        out.append(up("i0", 0, ["min", "c", 3], [g.fblock().stmt()]))
    out.append(block("assign", [acc("d", [], "i64")], acc("I", [5], PI)))
    out.append(block("assign", [acc("c", [], "i64")], acc("I", [6], PI)) if rng.random() < 0.5 else g.fblock().stmt())
    out.insert(0, empty([["c", 0], ["d", 1]]))
    return prog(g, out), INTS, P(*rng.choice([["SymbolPropagation"], ["SymbolPropagation"], ["SymbolPropagation", "dce"], ["SymbolPropagation", "DeadDataElimination"],
                                              ["SequenceFusion", "SymbolPropagation"], ["ConstantPropagation", "SymbolPropagation"]]))


def mapnest(rng):
    """Nests that are parallel from the start: every iteration works on a cell of its own; bounds and steps of all shapes."""
    g = base(rng)
    i, j = "i0", "i1"
    W = 6
    own = [["+", ["+", ["*", W, i], j], 10]]

    def rd():
        return acc("B", [rng.choice([["+", j, 12], ["+", i, 12], ["+", ["+", i, j], 12], ["+", ["*", W, i], ["+", j, 10]], 12])], PF)

    def stmt():
        k = rng.random()
        if k < 0.4:
            return block("fp_add", [rd(), ("c", "1.0", F)], acc("A", own, PF))
        if k < 0.6:
            return block("fp_mul", [acc("A", own, PF), rd()], acc("A", own, PF))
        if k < 0.8:
            return block("assign", [rd()], acc("A", own, PF))
        return block("assign", [acc(rng.choice([i, j]), [], "i64")], acc("I", own, PI))
    body = [stmt() for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.25:
        g.add("l", F)
        body.insert(0, block("assign", [rd()], acc("l", [], F)))
        body.insert(rng.randint(1, len(body)), block("fp_add", [acc("l", [], F), ("c", "1.0", F)], acc("A", own, PF)))
    if rng.random() < 0.15:
        body.insert(rng.randint(0, len(body)), dict(k="if", cases=[dict(c=["<", i, j], body=[stmt()])]))

    def loop(iv, b, kind, inner):
        lo, hi, step = rng.choice([0, 0, 1, "x"]), rng.choice(["n", 3, 4, "m", ["+", "n", 1]]), 1
        k = rng.random()
        if inner and k < 0.1:
            lo = i
        elif inner and k < 0.2:
            hi = ["+", i, 1]
        elif inner and k < 0.3:
            step = ["+", i, 1]
        elif inner and k < 0.34:
            step = ["max", i, 1]
        elif k < 0.42:
            step = 2
        c = rng.random()
        cond = ["<", iv, hi] if c < 0.75 else ["<=", iv, hi] if c < 0.85 and hi != ["+", "n", 1] else ["and", ["<", iv, hi], ["<", iv, 3]]
        return for_(iv, lo, cond, ["+", iv, step], b, kind=kind)
    okind, ikind = rng.choice([("map", "for"), ("map", "map"), ("map", "map"), ("for", "map")])
    inner = [loop(j, body, ikind, True)]
    if rng.random() < 0.15:
        inner.append(block("assign", [acc("B", [["+", i, 10]], PF)], acc("I", [["+", i, 2]], PI)) if False else block("assign", [acc(i, [], "i64")], acc("I", [["+", ["*", W, i], 15]], PI)))
    out = [loop(i, inner, okind, False)]
    if rng.random() < 0.2:
        out[-1].setdefault("tr", [["y", 1]])
    return prog(g, out), INTS, P(*rng.choice([["LoopNormalizationPass"], ["LoopNormalization"], ["code_motion"], ["map_fusion"], ["PerfectLoopDistribution"], ["StrideMinimization"]]))


FAMILIES = dict(mapnest=mapnest, index_chain=index_chain, conditional_symbols=conditional_symbols, common_assignment=common_assignment, rotated_while=rotated_while, guarded_loop=guarded_loop, tasklet_chain=tasklet_chain,
                block_chain=block_chain, same_definitions=same_definitions, pointer_view=pointer_view, arrays=arrays, linear=linear, heap=heap,
                producer_consumer=producer_consumer, truncs=truncs, iterator=iterator, evolving_symbols=evolving_symbols, nests=nests, xnest=xnest)
