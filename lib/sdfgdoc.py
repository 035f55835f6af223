"""Sessions with rich programs: saved, loaded, cloned, extended, copied from; judged by SdfgDocTrace.tla."""
from sdfgcheck import *
from sdfgrich import *

COMMUTATIVE_KEYS = {"nodes", "edges", "externals", "structures", "assignments"}


class Pool:
    """Values as numbers; equal values have one number."""

    def __init__(self):
        self.v, self.of = [], {}

    def put(self, t, o="", n=(), v=()):
        k = (t, o, tuple(n), tuple(v))
        if k not in self.of:
            self.v.append(dict(t=t, o=o, n=list(n), v=list(v)))
            self.of[k] = len(self.v)
        return self.of[k]

    def value(self, x, text=lambda s: s, bags=()):
        """Expressions are records with a kind k and possibly arguments a."""
        if isinstance(x, dict):
            if "k" in x and set(x) <= {"k", "a", "v", "s"} and isinstance(x["k"], str):
                return self.put("e", x["k"] + ":" + str(x.get("v", x.get("s", ""))) if "a" not in x else x["k"], (), [self.value(y, text, bags) for y in x.get("a", [])])
            ks = sorted(x)
            return self.put("r", "", ks, [self.put("g", "", (), [self.value(y, text, bags) for y in x[k]]) if k in bags and isinstance(x[k], list)
                                          else self.value(x[k], text, bags) for k in ks])
        if isinstance(x, list):
            return self.put("l", "", (), [self.value(y, text, bags) for y in x])
        if isinstance(x, str):
            return self.put("s", "s" + text(x))
        return self.put("s", json.dumps(x))


def symbols_in(x, out):
    if isinstance(x, dict):
        if x.get("k") == "s" and set(x) <= {"k", "s"}:
            out.add(x["s"])
        for y in x.values():
            symbols_in(y, out)
    elif isinstance(x, list):
        for y in x:
            symbols_in(y, out)
    return out


def described(pool, f):
    """A full description of the harness as a program of SdfgDoc.tla."""
    els, names = [], sorted(set(f["cs"]) | set(f["ex"]) | {"__daisy_nullptr"})

    def el(x, k, up, pos, val, uses=(), ends=()):
        els.append(dict(id=x["id"], k=k, up=up, pos=pos, val=pool.value(val), dbg=pool.value(x["dbg"]), uses=sorted(uses), ends=list(ends)))

    def seq(s, up, pos):
        el(s, "seq", up, pos, {})
        for i, (c, t) in enumerate(zip(s["ch"], s["tr"])):
            el(t, "tr", s["id"], i + 1, t["as"], set(t["as"]) | symbols_in(t["as"], set()))
            node(c, s["id"], i + 1)

    def node(n, up, pos):
        k = n["k"]
        rest = {a: b for a, b in n.items() if a not in ("id", "dbg", "ch", "tr", "b", "cs", "ns", "es")}
        if k == "seq":
            return seq(n, up, pos)
        if k == "if":
            rest["conds"] = [c["c"] for c in n["cs"]]
        uses = symbols_in(rest, set())
        if k in ("for", "map"):
            uses.add(n["iv"])
        if k == "return" and not n["const"] and n["data"]:
            uses.add(n["data"])
        el(n, k, up, pos, rest, uses)
        if k == "if":
            for i, c in enumerate(n["cs"]):
                seq(c["b"], n["id"], i + 1)
        elif "b" in n:
            seq(n["b"], n["id"], 1)
        elif k == "block":
            for d in n["ns"]:
                kind = "access" if "acc" in d else "constant" if "const" in d else "tasklet" if "tl" in d else "library"
                el(d, kind, n["id"], 0, {a: b for a, b in d.items() if a not in ("id", "dbg", "op")}, [d["acc"]] if "acc" in d else [])
            for e in n["es"]:
                el(e, "edge", n["id"], 0, {a: b for a, b in e.items() if a not in ("id", "dbg", "s", "d")}, symbols_in(e["sub"], set()), [e["s"], e["d"]])
    seq(f["root"], -1, 0)
    els.sort(key=lambda e: e["id"])
    return dict(count=f["count"], names=names, els=els, root=f["root"]["id"], cs=pool.value(f["cs"]), ex=pool.value(f["ex"]), ss=pool.value(f["ss"]), md=pool.value(f["md"]),
                iface=pool.value({k: f[k] for k in ("name", "type", "ret", "args")}))


def document(pool, d):
    """The document: the order of what carries an identifier or a name is free, and so is the order of terms inside an expression (its text)."""
    return pool.value(d, lambda s: "".join(sorted(s)), COMMUTATIVE_KEYS)


def session(pool, r):
    steps = [dict(act="build", p=described(pool, r["full"]))]
    for s in r["steps"]:
        a = s["act"]["a"]
        if a == "rt":
            if "full3" in s:
                steps.append(dict(act="clone", p=described(pool, s["full3"])))
            steps.append(dict(act="load", p=described(pool, s["full2"]), doc1=document(pool, s["doc1"]), doc2=document(pool, s["doc2"])))
        elif s.get("applied"):
            x = dict(act=a, p=described(pool, s["full"]))
            if a == "copy":
                x.update(src=s["src"], map=s["map"])
            steps.append(x)
    return steps


def histories(rep, n):
    wd = scratch("hist")
    r = tlc_checked("SdfgDocGen", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANT Counted\nINVARIANT Fresh\nINVARIANT Restores\nINVARIANT Show\n" % n, wd, heap="4g", timeout=300)
    if r.violated:
        raise CheckError("SdfgDocGen: " + r.out[-2000:])
    rep.tlc(r)
    o = re.sub(r"\s+", " ", r.out)
    hs = sorted({tuple(re.findall(r'"(\w+)"', h)) for h in re.findall(r'<< ?"HIST", <<(.*?)>> ?>>', o)})
    if len(hs) < 50:
        raise CheckError("SdfgDocGen printed %d sessions" % len(hs))
    return hs


def acts_of(r, h, base):
    out = []
    for a in h:
        if a == "load":
            out.append(dict(a="rt"))
        elif a == "clone":
            out.append(dict(a="rt", clone=True))
        elif a == "add":
            out.append(dict(a="add", body=base()))
        else:
            out.append(dict(a=a, i=r.randrange(1000)))
    return out


WHAT = dict(unique="two elements have the same identifier", counter="an identifier lies above the counter", edges="an edge of a block does not join nodes of it",
            names="an element uses a name that is not declared", count="the counter differs", elements="an element differs", document="the document differs when it is saved again",
            added="adding changed what was there or took used identifiers", removed="removing changed other elements", copy="the copy differs from the original",
            iface="the interface differs", cs="the containers differ", ex="the externals differ", ss="the structures differ", md="the metadata differ")


def sessions(rep, prop, items, judged):
    """Runs the sessions and has TLC judge the steps whose action is in judged."""
    exe = build_harness()
    rs = run_lines(exe, [dict(id=x["id"], prog=x["prog"], acts=x["acts"], opaque=True, full=True) for x in items], timeout=700)
    cases, fam = [], {}
    for x, r in zip(items, rs):
        st = fam.setdefault(x["fam"], dict(sessions=0, refused=0))
        if r.get("built") is False:
            st["refused"] += 1                   # the program is not valid
            continue
        st["sessions"] += 1
        if "crash" in r or "error" in r:
            rep.violation("a session with a valid program stopped: %s" % (r.get("crash") or r.get("error")), dict(prog=x["prog"], acts=x["acts"]), key=x.get("key"))
            continue
        pool = Pool()
        cases.append(dict(id=x["id"], steps=session(pool, r), V=pool.v))
    by = {x["id"]: x for x in items}
    for i in range(0, len(cases), 400):
        wd = scratch("doc")
        f = os.path.join(wd, "cases.json")
        with open(f, "w") as fh:
            json.dump(cases[i:i + 400], fh)
        r = tlc_checked("SdfgDocTrace", "SPECIFICATION Spec\nINVARIANT Report\n", wd, env={"CASES": f}, heap="12g", timeout=800)
        if r.violated:
            raise CheckError("SdfgDocTrace: " + r.out[-2000:])
        rep.tlc(r)
        o = re.sub(r"\s+", " ", r.out)
        if len(set(re.findall(r'<< ?"RUN", "([^"]+)", (\d+) ?>>', o))) != sum(len(c["steps"]) for c in cases[i:i + 400]):
            raise CheckError("TLC did not judge every step")
        shutil.rmtree(wd, ignore_errors=True)
        for k, n, act, w, e in sorted(set(re.findall(r'<< ?"BADDOC", "([^"]+)", (\d+), "(\w+)", \{(.*?)\}, (-?\d+) ?>>', o))):
            if act not in judged:
                continue
            x = by[k]
            rep.violation("%s: %s (element %s)" % (act, "; ".join(WHAT.get(y, y) for y in re.findall(r"\w+", w)), e), dict(prog=x["prog"], acts=x["acts"], step=int(n)), key=x.get("key"))
    rep.coverage["families"] = fam
    rep.coverage["samples"] = [dict(acts=[a["a"] for a in x["acts"]], family=x["fam"], elements=len(c["steps"][0]["p"]["els"])) for x, c in
                               ((by[c["id"]], c) for c in cases[:: max(1, len(cases) // 4)])]
    rep.add("steps_judged", sum(len(c["steps"]) for c in cases))
    rep.add("elements_compared", sum(len(s["p"]["els"]) for c in cases for s in c["steps"]))
    for k, v in fam.items():
        if v["sessions"] < 0.5 * (v["sessions"] + v["refused"]):
            raise CheckError("family %s: %s" % (k, v))


def items_of(rep, n, hs, tag):
    items = []
    gens = dict(rich=lambda r: rich(r), node=lambda r: every_node(r), program=lambda r: Gen(r, depth=r.choice([1, 2, 3])).program(), family=lambda r: family(r))
    for fam, k in n.items():
        for i in range(k):
            r = random.Random("%s/%s/%d/%d" % (tag, fam, rep.seed, i))
            p = gens[fam](r)
            h = hs[r.randrange(len(hs))]
            add = Rich(r, calls=False)
            items.append(dict(id="%s%d" % (fam, i), fam=fam, prog=p, acts=acts_of(r, h, (lambda: [add.statement(2)]) if fam == "rich" else (lambda: addition(r, p)))))
    return items


def family(r):
    while True:
        x = FAMILIES[r.choice(sorted(FAMILIES))](r)
        if x:
            return x[0]


def addition(r, p):
    """A statement for a program of the other families."""
    c = [x["name"] for x in p["containers"] if x["t"] == "i64"]
    if not c:
        return [dict(k="block", nodes=[], edges=[])]
    return [dict(k="if", cases=[dict(c=["<", r.choice(c), 3], body=[dict(k="block", nodes=[], edges=[], tr=[[r.choice(c), 1]], dbg=dbg(r))])]), dict(k="block", nodes=[], edges=[])]


def s01():
    rep = Report("S01", "model_checking")
    t = rep.thorough
    hs = histories(rep, 5 if t else 4)
    k = 8 if t else 1
    sessions(rep, "S01", items_of(rep, dict(rich=300 * k, node=160 * k, program=60 * k, family=60 * k), [h for h in hs if "load" in h], "doc"), ("build", "load", "clone", "add", "del"))
    rep.assumptions += ["SymEngine is replaced by a shim (shim/), which also parses the expressions of a document",
                        "the order of nodes and edges inside a block and of commutative terms is free"]
    return rep.finish()


def s06():
    """Copies of statements of every kind."""
    rep = Report("S06", "model_checking")
    t = rep.thorough
    hs = histories(rep, 4)
    k = 8 if t else 1
    sessions(rep, "S06", items_of(rep, dict(rich=330 * k, node=120 * k, program=60 * k, family=60 * k), [h for h in hs if "copy" in h], "copy"), ("copy",))
    rep.assumptions += ["source positions of transitions are not compared", "the order of nodes and edges inside a block and of commutative terms is free"]
    return rep.finish()
