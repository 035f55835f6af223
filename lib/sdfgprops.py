"""The checks S02..: what is generated, what is done to it, and the comparison by TLC."""
from sdfgcheck import *
from sdfgfam import *

SIMPLIFICATIONS = ["BlockFusionPass", "SequenceFusion", "SymbolPropagation", "SymbolPromotion", "DeadDataElimination",
                   "DeadCFGElimination", "LoopNormalizationPass", "controlflow", "dataflow", "dce"]
INS = [dict(n=3, m=2), dict(n=0, m=1), dict(n=2, m=4)]


def passes(*names):
    return [dict(a="pass", name=n) for n in names]


def family_items(rep, fam, k, acts=None, tag=""):
    items = []
    for i in range(k):
        rng = random.Random("%s/%d/%d%s" % (fam, rep.seed, i, tag))
        r = FAMILIES[fam](rng)
        if r is None:
            continue
        p, ints, a = r
        a = acts or a
        items.append(dict(id="%s%d%s" % (fam, i, tag), prog=p, acts=a, inputs=[make_input(p, rng, d) for d in ints],
                          what="%s of a generated %s program" % (",".join(x.get("name", x["a"]) for x in a), fam)))
    return items


def random_items(rep, k, acts, tag, **kw):
    items = []
    for i in range(k):
        rng = random.Random("random/%d/%d/%s" % (rep.seed, i, tag))
        p = Gen(rng, depth=rng.choice([1, 2, 2, 3]), **kw).program()
        items.append(dict(id="%s%d" % (tag, i), prog=p, acts=acts, inputs=[make_input(p, rng, d) for d in INS],
                          what="%s of a random program" % ",".join(x.get("name", x["a"]) for x in acts)))
    return items


def s02():
    rep = Report("S02", "model_checking")
    exe = build_harness()
    t = rep.thorough
    items = []
    for fam in sorted(FAMILIES):
        items += family_items(rep, fam, 600 if t else 80)
        if fam != "pointer_view":  # the whole pipeline decides dependences by container name: overlapping views are outside the claim
            items += family_items(rep, fam, 200 if t else 25, passes("simplify"), "s")
    items += random_items(rep, 2500 if t else 350, passes("simplify"), "simplify")
    for p in SIMPLIFICATIONS:
        items += random_items(rep, 600 if t else 90, passes(p), p)
    items += xf_items(rep, ["xnest", "nests"], 800 if t else 120, "d", lambda rng, prog: passes("For2MapPass", rng.choice(["DeadCFGElimination", "dce", "dataflow", "map_fusion"])))
    eq = Equivalence(rep)
    run_programs(rep, exe, items, eq)
    eq.run(timeout=3000 if t else 800)
    need(rep, ["BlockFusionPass", "SequenceFusion", "SymbolPropagation", "DeadDataElimination", "ReferencePropagation", "TrivialArrayElimination",
               "CommonAssignmentElimination", "ConditionEliminationPass", "WhileToForConversion", "TaskletFusionPass", "PointerEvolution",
               "TypeMinimizationPass", "simplify", "AllocationManagementPass"])
    return done(rep)


def need(rep, names):
    """Coverage facts only: how many of the named actions took effect at least once."""
    ap = rep.coverage.get("applied", {})
    rep.coverage["never_applied"] = [n for n in names if not ap.get(n) and not ap.get("fix:" + n)]


def done(rep):
    rep.assumptions += [
        "SymEngine and the isl headers are replaced by a shim (shim/); isl itself is the installed library",
        "floating point is run on small integers, where the operations used are exact",
        "array subscripts stay inside the declared inner dimensions, as docc assumes",
    ]
    return rep.finish()


# ------------------------------------------------------------------ loop transformations
def random_xf(rng, conts):
    k = rng.choice(["LoopTiling", "LoopTiling", "LoopInterchange", "LoopInterchange", "LoopSkewing", "LoopDistribute", "LoopDistribute", "OutLocalStorage", "OutLocalStorage"])
    a = dict(a="xf", name=k, l=rng.randint(0, 5), json=rng.random() < 0.5)
    if k == "LoopTiling":
        a["size"] = rng.choice([2, 2, 3, 4])
    if k in ("LoopInterchange", "LoopSkewing"):
        a["m"] = "inner"
    if k == "LoopSkewing":
        a["factor"] = rng.choice([1, 1, 2, -1])
    if k == "OutLocalStorage":
        a["c"] = rng.choice(conts)
    return a


def xf_acts(rng, prog):
    conts = [c["name"] for c in prog["containers"] if c["name"] in ("A", "B", "C", "T", "s", "t", "u")]
    acts = passes(*rng.choice([[], [], ["For2MapPass"], ["For2MapPass"], ["LoopNormalizationPass", "For2MapPass"]]))
    return acts + [random_xf(rng, conts) for _ in range(rng.choice([1, 1, 2, 3]))]


def xf_items(rep, fams, k, tag, gen=xf_acts, **more):
    items = []
    for fam in fams:
        for i in range(k):
            rng = random.Random("%s/%s/%d/%d" % (tag, fam, rep.seed, i))
            if fam == "random":
                p, ints = Gen(rng, depth=rng.choice([1, 2, 2])).program(), INS
            else:
                r = FAMILIES[fam](rng)
                if r is None:
                    continue
                p, ints, _ = r
            acts = gen(rng, p)
            items.append(dict(id="%s-%s%d" % (tag, fam, i), prog=p, acts=acts, inputs=[make_input(p, rng, d) for d in ints],
                              what="%s of a generated %s program" % (",".join(x.get("name", x["a"]) for x in acts), fam), **more))
    return items


XF_FAMS = ["nests", "producer_consumer", "random", "arrays", "linear", "xnest", "xnest", "xnest"]


def parallelise(rng, prog):
    return passes(*rng.choice([["For2MapPass"], ["For2MapPass"], ["For2MapPass"], ["LoopNormalizationPass", "For2MapPass"], ["SymbolPropagation", "For2MapPass"],
                               ["simplify", "For2MapPass"]]))


def s03():
    """Sequential loops converted to maps: the specification then runs their iterations in all orders."""
    rep = Report("S03", "model_checking")
    exe = build_harness()
    t = rep.thorough
    items = xf_items(rep, ["xnest"], 5000 if t else 900, "m", parallelise)
    items += xf_items(rep, ["nests"], 3000 if t else 600, "m", parallelise)
    items += xf_items(rep, ["random"], 2500 if t else 400, "m", parallelise)
    items += xf_items(rep, [f for f in sorted(FAMILIES) if f not in ("xnest", "nests", "pointer_view")], 500 if t else 70, "m", parallelise)
    eq = Equivalence(rep)
    run_programs(rep, exe, items, eq)
    eq.run(timeout=3000 if t else 800)
    need(rep, ["For2MapPass"])
    return done(rep)


def s04():
    """Loop transformations chosen at random, with a description that is written out and read back half of the time."""
    rep = Report("S04", "model_checking")
    exe = build_harness()
    t = rep.thorough
    items = xf_items(rep, ["xnest"], 6000 if t else 1400, "x")
    items += xf_items(rep, ["mapnest"], 3000 if t else 500, "x")
    items += xf_items(rep, ["nests", "producer_consumer", "arrays", "linear", "random"], 1500 if t else 250, "x")
    eq = Equivalence(rep)
    run_programs(rep, exe, items, eq)
    eq.run(timeout=3000 if t else 800)
    need(rep, ["LoopTiling", "LoopInterchange", "LoopSkewing", "LoopDistribute", "OutLocalStorage"])
    return done(rep)
