"""Random structured programs as JSON descriptions for the harness, with inputs on which they are run."""
import random

F = "f64"
PF = {"ptr": "f64"}
PI = {"ptr": "i64"}


class Blk:
    """Builds one block: nodes and edges."""

    def __init__(self):
        self.nodes, self.edges, self.n = [], [], 0

    def node(self, **k):
        k["id"] = self.n
        self.n += 1
        self.nodes.append(k)
        return k["id"]

    def tasklet(self, code, ins, outs):
        """ins: list of operands; an operand is ('acc', node or name, subset, type) or ('c', text, type)."""
        conns = ["_in%d" % i for i in range(len(ins))]
        t = self.node(tl=code, ins=conns)
        for c, o in zip(conns, ins):
            if o[0] == "c":
                s = self.node(const=o[1], t=o[2])
                self.edges.append(dict(s=s, d=t, dc=c, sub=[], t=o[2]))
            else:
                s = o[1] if isinstance(o[1], int) else self.node(acc=o[1])
                self.edges.append(dict(s=s, d=t, dc=c, sub=o[2], t=o[3]))
        res = []
        for o in outs:
            d = o[1] if isinstance(o[1], int) else self.node(acc=o[1])
            self.edges.append(dict(s=t, sc="_out", d=d, sub=o[2], t=o[3]))
            res.append(d)
        return res

    def stmt(self, tr=None, name=None):
        s = dict(k="block", nodes=self.nodes, edges=self.edges)
        if tr:
            s["tr"] = tr
        if name:
            s["name"] = name
        return s


def block(code, ins, out, tr=None):
    b = Blk()
    b.tasklet(code, ins, [out])
    return b.stmt(tr)


def acc(c, sub, t):
    return ("acc", c, sub, t)


def empty(tr):
    return dict(k="block", nodes=[], edges=[], tr=tr)


def for_(iv, lo, cond, upd, body, name=None, kind="for", tr=None):
    s = dict(k=kind, iv=iv, init=lo, cond=cond, upd=upd, body=body)
    if name:
        s["name"] = name
    if tr:
        s["tr"] = tr
    return s


def up(iv, lo, hi, body, step=1, name=None, kind="for"):
    return for_(iv, lo, ["<", iv, hi], ["+", iv, step], body, name, kind)


ARR = 40      # cells of every array argument


def with_jump(r, body, iv, p=0.15):
    """Now and then a break or continue of the loop over iv, somewhere in its body."""
    if r.random() < p:
        c = r.choice([["==", iv, 1], ["==", iv, 2], [">", iv, "m"], ["<", iv, "m"], ["==", "n", 3]])
        j = dict(k="if", cases=[dict(c=c, body=[dict(k=r.choice(["break", "break", "continue"]))])])
        body = list(body)
        body.insert(r.randint(0, len(body)), j)
    return body


class Gen:
    """A random program over fixed containers."""

    def __init__(self, rng, maps=True, whiles=True, depth=3, refs=True, arrays=True):
        self.r = rng
        self.depth, self.maps, self.whiles, self.refs, self.arrays = depth, maps, whiles, refs, arrays
        self.cont = {}
        for a in ("A", "B"):
            self.add(a, PF, True)
        self.add("I", PI, True)
        self.add("n", "i64", True)
        self.add("m", "i64", True)
        for x in ("x", "y", "z"):
            self.add(x, "i64")
        for x in ("s", "t", "u"):
            self.add(x, F)
        self.ivs = []
        self.k = 0
        self.loops = []
        self.loopdepth = 0
        self.named = 0
        self.ret = None
        self.inits = []

    def add(self, c, t, arg=False):
        self.cont[c] = dict(name=c, t=t, arg=arg)

    def fresh_iv(self):
        iv = "i%d" % self.k
        self.k += 1
        self.add(iv, "i64")
        return iv

    # integer expressions over the symbols in scope
    def sym(self):
        c = ["n", "m"] + self.ivs * 3 + ["x", "y"]
        return self.r.choice(c)

    def iexpr(self, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.35:
            return self.sym() if r.random() < 0.75 else r.randint(-2, 4)
        if k < 0.6:
            return ["+", self.iexpr(d - 1), self.iexpr(d - 1)]
        if k < 0.72:
            return ["-", self.iexpr(d - 1), self.iexpr(d - 1)]
        if k < 0.84:
            return ["*", r.choice([2, 3, -1]), self.iexpr(d - 1)]
        if k < 0.88:
            return ["max", self.iexpr(d - 1), self.iexpr(d - 1)]
        if k < 0.92:
            return ["min", self.iexpr(d - 1), self.iexpr(d - 1)]
        if k < 0.95:
            return ["idiv", self.iexpr(d - 1), r.choice([2, 3])]
        if k < 0.97:
            return ["iabs", self.iexpr(d - 1)]
        return ["mod", self.iexpr(d - 1), r.choice([2, 3])]

    def cond(self, d=1):
        r = self.r
        if d and r.random() < 0.25:
            return [r.choice(["and", "or"]), self.cond(0), self.cond(0)]
        if d and r.random() < 0.1:
            return ["not", self.cond(0)]
        return [r.choice(["<", "<=", "==", "!=", ">", ">="]), self.iexpr(1), self.iexpr(1) if r.random() < 0.5 else r.randint(-1, 4)]

    # an index that stays inside the arrays
    def idx(self):
        r = self.r
        base = r.choice([8, 10, 12])
        if self.ivs and r.random() < 0.8:
            iv = r.choice(self.ivs)
            e = iv if r.random() < 0.7 else ["*", 2, iv]
            if len(self.ivs) > 1 and r.random() < 0.3:
                e = ["+", e, ["*", r.choice([1, 3]), r.choice(self.ivs)]]
            return ["+", e, base + r.randint(-1, 1)]
        if r.random() < 0.3:
            return ["+", r.choice(["n", "m", "x"]), base]
        return base + r.randint(-2, 3)

    def fplace(self):
        r = self.r
        if r.random() < 0.55:
            return acc(r.choice(["A", "B"]), [self.idx()], PF)
        return acc(r.choice(["s", "t", "u"]), [], F)

    def fsrc(self):
        if self.r.random() < 0.2:
            return ("c", "%d.0" % self.r.randint(-3, 5), F)
        return self.fplace()

    def isrc(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return ("c", str(r.randint(-2, 4)), "i64")
        if k < 0.5:
            return acc("I", [self.idx()], PI)
        return acc(r.choice(["x", "y", "z", "n", "m"] + self.ivs), [], "i64")

    def iplace(self):
        r = self.r
        if r.random() < 0.4:
            return acc("I", [self.idx()], PI)
        return acc(r.choice(["x", "y", "z"]), [], "i64")

    def fblock(self):
        r = self.r
        code = r.choice(["assign", "fp_add", "fp_sub", "fp_mul", "fp_fma", "fp_neg", "fp_add"])
        n = {"assign": 1, "fp_neg": 1, "fp_fma": 3}.get(code, 2)
        b = Blk()
        ins = [self.fsrc() for _ in range(n)]
        out = self.fplace()
        ds = b.tasklet(code, ins, [out])
        if r.random() < 0.3:
            # a second tasklet that reads the first result
            o2 = self.fplace()
            if o2[1] not in [out[1]] + [i[1] for i in ins]:
                b.tasklet(r.choice(["fp_add", "fp_mul", "assign"]) if False else "fp_add",
                          [("acc", ds[0], out[2], out[3]), ("c", "2.0", F)], [o2])
        return b

    def iblock(self):
        r = self.r
        code = r.choice(["assign", "int_add", "int_sub", "int_mul", "int_smin", "int_smax", "int_add", "int_abs", "int_sdiv", "int_srem"])
        b = Blk()
        n = 1 if code in ("assign", "int_abs") else 2
        ins = [self.isrc() for _ in range(n)]
        if code in ("int_sdiv", "int_srem"):
            ins[1] = ("c", str(r.choice([2, 3])), "i64")
        b.tasklet(code, ins, [self.iplace()])
        return b

    def trans(self):
        r = self.r
        if r.random() > 0.25:
            return None
        t = []
        syms = ["x", "y", "z"]
        r.shuffle(syms)
        used = set()
        for s in syms[: r.choice([1, 1, 2])]:
            e = self.iexpr(2)
            names = set(flat(e))
            if any(a[0] in names for a in t) or s in used:
                continue
            used |= names
            if any(s in flat(a[1]) for a in t):
                continue
            t.append([s, e])
        return t or None

    def stmts(self, d, in_while=False, in_map=None):
        r = self.r
        out = []
        for _ in range(r.randint(1, 3 if d < self.depth else 4)):
            out.append(self.stmt(d, in_while, in_map))
        return out

    def nm(self, p):
        self.named += 1
        return "%s%d" % (p, self.named)

    def stmt(self, d, in_while, in_map):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.35:
            return self.fblock().stmt(self.trans()) if r.random() < 0.6 else self.iblock().stmt(self.trans())
        if k < 0.42:
            return empty(self.trans() or [["z", self.iexpr(2)]])
        if k < 0.65:
            return self.loop(d)
        if k < 0.8:
            cases = [dict(c=self.cond(), body=self.stmts(d - 1, in_while))]
            if r.random() < 0.5:
                c2 = ["not", cases[0]["c"]] if r.random() < 0.5 else True
                cases.append(dict(c=c2, body=self.stmts(d - 1, in_while)))
            s = dict(k="if", cases=cases)
            t = self.trans()
            if t:
                s["tr"] = t
            return s
        if k < 0.9 and self.whiles:
            return self.while_(d)
        if k < 0.95 and self.maps:
            return self.map(d)
        return dict(k="seq", body=self.stmts(d - 1, in_while))

    def loop(self, d):
        r = self.r
        iv = self.fresh_iv()
        nm = self.nm("L")
        lo = r.choice([0, 0, 0, 1, -1, "x"]) if r.random() < 0.9 else ["-", "m", 1]
        hi = r.choice(["n", "n", "m", 3, ["+", "n", 1], ["min", "n", "m"]] + self.ivs[-1:])
        kind = r.random()
        body_ivs = self.ivs
        self.ivs = self.ivs + [iv]
        body = self.stmts(d - 1)
        self.ivs = body_ivs
        body = with_jump(r, body, iv)
        self.loops.append(nm)
        if kind < 0.7:
            return for_(iv, lo, ["<", iv, hi], ["+", iv, 1], body, nm)
        if kind < 0.8:
            return for_(iv, lo, ["<=", iv, hi], ["+", iv, r.choice([1, 2])], body, nm)
        if kind < 0.9:
            return for_(iv, hi, [">", iv, 0], ["+", iv, -1], body, nm)
        return for_(iv, lo, ["and", ["<", iv, hi], ["<", iv, 4]], ["+", iv, 1], body, nm)

    def while_(self, d):
        """w = 0; while(1) { if (w >= bound) break; body; w++ }"""
        r = self.r
        w = self.fresh_iv()
        bound = r.choice(["n", "m", 2, 3])
        old = self.ivs
        self.ivs = self.ivs + [w]
        body = self.stmts(d - 1, True)
        self.ivs = old
        brk = dict(k="if", cases=[dict(c=[">=", w, bound], body=[dict(k="break")])])
        if r.random() < 0.5:
            brk = dict(k="if", cases=[dict(c=["<", w, bound], body=[empty([["z", w]])]), dict(c=["<=", bound, w], body=[dict(k="break")])])
        inc = empty([[w, ["+", w, 1]]])
        pos = r.random()
        if pos < 0.5:
            bl = [brk] + body + [inc]
        elif pos < 0.8:
            bl = body + [inc, brk]
        else:
            bl = [brk, inc] + body
        if r.random() < 0.2:
            bl.insert(len(bl), dict(k="if", cases=[dict(c=["==", w, 1], body=[dict(k="continue")])]))
        return dict(k="seq", body=[empty([[w, 0]]), dict(k="while", body=bl)])

    def map(self, d):
        """Iterations write only A[iv + base] (or B) and private scalars, and read elsewhere."""
        r = self.r
        iv = self.fresh_iv()
        nm = self.nm("M")
        self.loops.append(nm)
        dst, src = r.choice([("A", "B"), ("B", "A")])
        base = r.choice([8, 10, 12])
        i = ["+", iv, base]
        body = []
        if r.random() < 0.5:
            body.append(block("fp_add", [acc(src, [["+", iv, base + r.randint(-1, 1)]], PF), ("c", "1.0", F)], acc("s", [], F)))
            body.append(block("fp_mul", [acc("s", [], F), acc(src, [i], PF)], acc(dst, [i], PF)))
        else:
            body.append(block("fp_add", [acc(src, [["+", iv, base + r.randint(-1, 1)]], PF), acc(dst, [i], PF)], acc(dst, [i], PF)))
        hi = r.choice(["n", "m", 3])
        pre = [] if not any("acc" in n and n.get("acc") == "s" for b in body for n in b["nodes"]) else None
        m = up(iv, 0, hi, body, name=nm, kind="map")
        if pre is None:
            # the private scalar is dead after the map
            return dict(k="seq", body=[m, block("assign", [("c", "0.0", F)], acc("s", [], F))])
        return m

    def program(self):
        body = [empty([["x", 1], ["y", 2], ["z", 0]])]
        for v in ("s", "t", "u"):
            body.append(block("assign", [("c", "1.0", F)], acc(v, [], F)))
        body += self.stmts(self.depth)
        # make the transients visible
        body.append(block("assign", [acc("s", [], F)], acc("A", [0], PF)))
        body.append(block("assign", [acc("x", [], "i64")], acc("I", [0], PI)))
        if self.r.random() < 0.5:
            body.append(block("assign", [acc("z", [], "i64")], acc("I", [1], PI)))
            body.append(block("assign", [acc("t", [], F)], acc("A", [1], PF)))
        return dict(name="f", containers=list(self.cont.values()), root=body)


def flat(e):
    if isinstance(e, list):
        r = []
        for x in e[1:]:
            r += flat(x)
        return r
    return [e] if isinstance(e, str) else []


SIZE = {"i64": 8, "u64": 8, "f64": 8, "i32": 4, "u32": 4, "f32": 4, "i16": 2, "u16": 2, "i8": 1, "u8": 1, "bool": 1}


def make_input(prog, rng, ints=None, cells=ARR, lo=-3, hi=4):
    """Values of the arguments: pointers get an object of their own."""
    v, h = {}, []
    for c in prog["containers"]:
        if not c.get("arg"):
            continue
        t = c["t"]
        if isinstance(t, str) and t != "void*":
            if ints and c["name"] in ints:
                x = ints[c["name"]]
            elif t.startswith("f"):
                x = rng.randint(lo, hi)
            elif t == "bool":
                x = rng.randint(0, 1)
            else:
                x = rng.randint(0, 4)
            v[c["name"]] = x
        else:
            n = c.get("cells", cells)
            el = t.get("ptr") or t.get("el")
            if t.get("el"):
                el = t["el"]
            while isinstance(el, dict):
                el = el.get("arr") or el.get("ptr")
            sz = SIZE.get(el, 8)
            l2 = 0 if el.startswith("u") or el == "bool" else lo
            h2 = 1 if el == "bool" else hi
            h.append(dict(b=n * sz, sz=sz, fill=0, d=[rng.randint(l2, h2) for _ in range(n)]))
            v[c["name"]] = len(h) * 1000000 + 500000
    return dict(v=v, h=h)


def prep(dump):
    """What the specification needs beside the harness' dump."""
    names = sorted(dump["cs"])
    own = []
    for c in names:
        i = dump["cs"][c]
        if i["ext"] or not i["own"]:
            continue
        if i["kind"] == "arr":
            own.append(dict(c=c, n={"k": "*", "a": [i["n"], {"k": "n", "v": SIZE.get(i["t"], 8)}]}))
        elif "bytes" in i:
            own.append(dict(c=c, n=i["bytes"]))
    els = []
    for e in dump["els"]:
        e = dict(e)
        if e["k"] == "map":
            e["down"] = False
            e.pop("props", None)
        els.append(e)
    names = sorted(set(names) | {e["iv"] for e in els if "iv" in e})
    return dict(names=names, own=own, els=els, root=dump["root"])
