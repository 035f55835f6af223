"""Programs for the code generators: every scalar type, tasklet code, kind of expression, statement and memory operation."""
from sdfggen import *
import sdfglib

NAN = 2147483645
VP = "void*"
INTT = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
FLT = ["f32", "f64"]
ALLT = INTT + FLT + ["bool"]
FARITH = {"fp_neg": 1, "fp_add": 2, "fp_sub": 2, "fp_mul": 2, "fp_div": 2, "fp_rem": 2, "fp_fma": 3}
FTEST = ["fp_oeq", "fp_one", "fp_oge", "fp_ogt", "fp_ole", "fp_olt", "fp_ord", "fp_ueq", "fp_une", "fp_uge", "fp_ugt", "fp_ule", "fp_ult", "fp_uno"]
IARITH = ["int_add", "int_sub", "int_mul", "int_sdiv", "int_srem", "int_udiv", "int_urem", "int_and", "int_or", "int_xor", "int_shl", "int_ashr", "int_lshr",
          "int_smin", "int_smax", "int_scmp", "int_umin", "int_umax", "int_ucmp"]
UOPS = ["int_udiv", "int_urem", "int_lshr", "int_umin", "int_umax", "int_ucmp"]
ITEST = ["int_eq", "int_ne", "int_sge", "int_sgt", "int_sle", "int_slt", "int_uge", "int_ugt", "int_ule", "int_ult"]


def const_text(rng, t):
    if t == "bool":
        return rng.choice(["0", "1", "true", "false"])
    v = rng.randint(0 if t[0] == "u" else -3, 6)
    return "%d.0" % v if t[0] == "f" else str(v)


class Code:
    def __init__(self, rng, lang):
        self.r, self.cont, self.lang = rng, {}, lang
        self.nan = False
        # unsigned 8-bit integers are char in generated C code (known finding): left to a case of its own
        self.ints = [t for t in INTT if lang != "c" or t != "u8"]
        self.all = self.ints + FLT + ["bool"]

    def add(self, name, t, arg=False, **k):
        if name not in self.cont:
            self.cont[name] = dict(name=name, t=t, arg=arg, **k)
        return name

    def arr(self, t, k):
        """An argument array of elements of type t."""
        return self.add("%s_%s" % (k, t), {"ptr": t}, True, cells=12)

    def prog(self, body, **k):
        return dict(name="f", containers=list(self.cont.values()), root=body, **k)

    # ---- tasklets over every type
    def operand(self, t):
        r = self.r
        k = r.random()
        if k < 0.2:
            return ("c", const_text(r, t), t)
        if k < 0.8:
            return acc(self.arr(t, "P"), [r.randint(0, 9)], {"ptr": t})
        n = self.add("a%d_%s" % (r.randint(0, 1), t), t, True)
        return acc(n, [], t)

    def target(self, t):
        return acc(self.arr(t, "Q"), [self.r.randint(0, 9)], {"ptr": t})

    def task(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            a, b = r.choice(self.all), r.choice(self.all)
            return block("assign", [self.operand(a)], self.target(b))
        if k < 0.4:
            c = r.choice(list(FARITH))
            ts = [r.choice(FLT) for _ in range(FARITH[c])]
            return block(c, [self.operand(t) for t in ts], self.target(r.choice(FLT)))
        if k < 0.55:
            c = r.choice([x for x in FTEST if not (self.nan and x == "fp_one")])
            return block(c, [self.operand(r.choice(FLT)) for _ in range(2)], self.target(r.choice(["bool", "i32", "u16", "i64"])))
        t = r.choice(self.ints)
        if k < 0.85:
            c = r.choice([o for o in IARITH + ["int_abs"] if not (t == "i8" and o in UOPS and self.lang == "c")])
            ins = [self.operand(t)] if c == "int_abs" else [self.operand(t), self.operand(t)]
            if c[-3:] in ("div", "rem"):
                ins[1] = ("c", str(r.choice([1, 2, 3, 5, 7])), t)
            return block(c, ins, self.target(t if r.random() < 0.8 else r.choice(self.ints)))
        return block(r.choice(ITEST[:6] if t == "i8" and self.lang == "c" else ITEST), [self.operand(t), self.operand(t)], self.target(r.choice(["bool", "i32", "i64", "u16"])))

    # ---- symbolic expressions
    def syms(self):
        return ["n", "m", "w", "h", "x", "y"]

    def expr(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.1:
            return r.choice(self.syms()) if r.random() < 0.7 else r.randint(-4, 6)
        s = lambda: self.expr(d - 1)
        op = r.choice(["+", "+", "-", "-", "*", "*", "max", "min", "idiv", "mod", "iabs", "pow", "nmax", "nmin", "zext_i64", "trunc_i32"])
        if op in ("+", "-", "*", "max", "min"):
            return [op, s(), s()]
        if op in ("nmax", "nmin"):
            e = s()
            for _ in range(r.randint(2, 3)):
                e = [op[1:], e, s()]
            return e
        if op in ("idiv", "mod"):
            return [op, s(), r.choice([2, 3, -2, ["+", ["iabs", self.expr(0)], 1]])]
        if op == "pow":
            return ["pow", self.expr(min(d - 1, 1)), r.choice([2, 2, 3, 4])]
        if op == "trunc_i32":
            return [op, s()]
        if op == "zext_i64":
            return [op, ["iabs", s()]]
        return ["iabs", s()]

    def cond(self, d):
        r = self.r
        k = r.random()
        if d and k < 0.3:
            return [r.choice(["and", "or"]), self.cond(d - 1), self.cond(d - 1)]
        if d and k < 0.4:
            return ["not", self.cond(d - 1)]
        return [r.choice(["<", "<=", ">", ">=", "==", "!="]), self.expr(1), self.expr(1)]


def ints_of(c):
    """Symbol arguments of several widths and two local symbols."""
    c.add("n", "i64", True)
    c.add("m", "i32", True)
    c.add("w", "i16", True)
    c.add("h", "i8", True)
    c.add("x", "i64")
    c.add("y", "i32")
    c.add("I", {"ptr": "i64"}, True, cells=16)
    return [empty([["x", c.r.randint(-3, 5)]]), empty([["y", c.r.randint(-3, 5)]])]


def show(c, name, t, i):
    return block("assign", [acc(name, [], t)], acc("I", [i], {"ptr": "i64"}))


def tasks(rng, lang):
    c = Code(rng, lang)
    c.nan = rng.random() < 0.4
    body = [c.task() for _ in range(rng.randint(4, 9))]
    return c, c.prog(body)


def exprs(rng, lang):
    c = Code(rng, lang)
    body = ints_of(c)
    for i in range(rng.randint(2, 5)):
        d = rng.choice([1, 2, 2, 3])
        body.append(empty([[rng.choice(["x", "x", "y"]), c.expr(d)]]))
        body += [show(c, "x", "i64", 2 * i), show(c, "y", "i32", 2 * i + 1)]
        if rng.random() < 0.6:
            cs = [dict(c=c.cond(2), body=[empty([["x", rng.randint(0, 9)]])]) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.5:
                cs.append(dict(c=True, body=[empty([["x", ["+", "x", 1]]])]))
            body += [dict(k="if", cases=cs), show(c, "x", "i64", 10 + i)]
    return c, c.prog(body)


class Flow(Code):
    """Nested control flow that writes a trace of what it did into I."""

    def __init__(self, rng, lang):
        super().__init__(rng, lang)
        self.k, self.ivs, self.n = 0, [], 0

    def syms(self):
        return ["n", "m", "x", "y"] + self.ivs * 2

    def mark(self):
        """I[x mod 16] += constant; counter up."""
        self.n += 1
        b = Blk()
        i = ["mod", ["iabs", self.expr(1)], 16]
        p = {"ptr": "i64"}
        b.tasklet("int_add", [acc("I", [i], p), ("c", str(self.n), "i64")], [acc("I", [i], p)])
        return b.stmt(self.tr())

    def tr(self):
        r = self.r
        if r.random() < 0.5:
            return None
        v = r.choice(["x", "y"])
        return [[v, r.choice([["+", v, 1], ["-", v, 1], self.expr(1), ["mod", ["*", 2, v], 7]])]]

    def body(self, d, loop):
        return [self.stmt(d, loop) for _ in range(self.r.randint(1, 3))]

    def stmt(self, d, loop):
        r = self.r
        k = r.random()
        self.left -= 1
        if d == 0 or k < 0.25 or self.left < 0:
            return self.mark()
        if k < 0.45:
            cs = []
            for _ in range(r.randint(1, 3)):
                b = self.body(d - 1, loop)
                q = r.random()
                if loop and q < 0.15:
                    b.append(dict(k="continue" if loop == "map" or r.random() < 0.5 else "break"))
                elif q < 0.2 and loop != "map":
                    b.append(self.ret())
                cs.append(dict(c=self.cond(1), body=b))
            if r.random() < 0.4:
                cs.append(dict(c=True, body=self.body(d - 1, loop)))
            s = dict(k="if", cases=cs)
        elif k < 0.5:
            s = dict(k="seq", body=self.body(d - 1, loop))
        elif k < 0.65:
            v = "c%d" % self.k
            self.k += 1
            self.add(v, r.choice(["i64", "i32", "u16"]))
            n = r.randint(0, 4)
            out = dict(k="if", cases=[dict(c=[">=", v, n], body=[dict(k="break")])])
            step = empty([[v, ["+", v, 1]]])
            b = [out, step] + self.body(d - 1, "while") if r.random() < 0.6 else [step] + self.body(d - 1, "while") + [out]
            return dict(k="seq", body=[empty([[v, 0]]), dict(k="while", body=b)])
        else:
            iv = "i%d" % self.k
            self.k += 1
            self.add(iv, r.choice(["i64", "i64", "i32", "i16"]))
            lo = r.randint(-2, 2)
            hi = r.choice(["n", 4, ["+", "n", 1], 3, ["min", "n", "m"]])
            q = r.random()
            kind = "map" if r.random() < 0.3 else "for"
            if q < 0.6:
                init, cond, upd = lo, [r.choice(["<", "<="]), iv, hi], ["+", iv, r.choice([1, 1, 2, 3])]
                if r.random() < 0.3:
                    cond = ["and", cond, ["<", iv, "m"]]
            elif q < 0.8:
                init, cond, upd = r.choice(["n", 4, 5]), [r.choice([">", ">="]), iv, r.randint(-1, 1)], ["-", iv, r.choice([1, 2])]
                kind = "for"
            elif q < 0.9:
                init, cond, upd = 1, ["<", iv, 12], ["*", 2, iv]
                kind = "for"
            else:
                init, cond, upd = 0, ["!=", iv, 3], ["+", iv, 1]
            keep = list(self.ivs)
            self.ivs = keep + [iv]
            b = self.body(d - 1, kind)
            self.ivs = keep
            s = for_(iv, init, cond, upd, b, None, kind)
        if r.random() < 0.3:
            t = self.tr()
            if t:
                s["tr"] = t
        return s

    def ret(self):
        if not self.rt:
            return dict(k="return")
        if self.r.random() < 0.5:
            return dict(k="return", **{"const": const_text(self.r, self.rt), "t": self.rt})
        return dict(k="return", data={"i64": "x", "i32": "y"}.get(self.rt, "x"))


def flow(rng, lang):
    c = Flow(rng, lang)
    c.rt = rng.choice([None, None, "i64", "i32"])
    body = ints_of(c)
    c.left = 14
    body += c.body(rng.choice([2, 3, 3]), None)
    body += [show(c, "x", "i64", 14), show(c, "y", "i32", 15)]
    if c.rt:
        body.append(c.ret())
        return c, c.prog(body, ret=c.rt)
    return c, c.prog(body)


def memory(rng, lang):
    """Nested arrays, views, pointers in memory, allocations, copies."""
    c = Code(rng, lang)
    t = rng.choice(["f64", "i64", "f32", "i32", "i16"] + ([] if lang == "c" else ["u8"]))
    n1 = "fp_add" if t[0] == "f" else "int_add"
    one = "1.0" if t[0] == "f" else "1"
    p, pp = {"ptr": t}, {"ptr": {"ptr": t}}
    c.add("A", p, True, cells=16)
    c.add("B", p, True, cells=16)
    c.add("n", "i64", True)
    c.add("i", "i64")
    c.add("T", {"arr": t, "n": 6})
    c.add("M", {"arr": {"arr": t, "n": 3}, "n": 4})
    c.add("v", p)
    c.add("q", p)
    c.add("H", p)
    sz = SIZE[t]
    c.add("Z", {"ptr": t, "heap": ["*", sz, ["+", "n", 6]]})
    body = [up("i", 0, 6, [block("assign", [acc("A", ["i"], p)], acc("T", ["i"], c.cont["T"]["t"]))]),
            up("i", 0, 12, [block("assign", [("c", one, t)], acc("M", [["idiv", "i", 3], ["mod", "i", 3]], c.cont["M"]["t"]))])]

    def ref(dst, src, off, ty):
        return dict(k="block", nodes=[dict(id=0, acc=src), dict(id=1, acc=dst)], edges=[dict(s=0, d=1, sc="void", dc="ref", sub=off, t=ty)])

    def lib(node, ins, outs):
        b = Blk()
        l = b.node(**node)
        for cn, x, ty in ins:
            b.edges.append(dict(s=b.node(acc=x), d=l, dc=cn, sub=[], t=ty))
        for cn, x, ty in outs:
            b.edges.append(dict(s=l, sc=cn, d=b.node(acc=x), sub=[], t=ty))
        return b.stmt()
    parts = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["view", "view2", "arr", "mat", "heap", "copy", "set", "viewarr", "managed"])
        i, j = rng.randint(0, 4), rng.randint(0, 3)
        if k == "view":
            parts += [ref("v", "A", [i], p), block(n1, [acc("v", [j], p), ("c", one, t)], acc("v", [j + 1], p))]
        elif k == "view2":
            parts += [ref("v", "B", [i], p), ref("q", "v", [j], p), block("assign", [acc("q", [1], p)], acc("A", [i], p))]
        elif k == "viewarr":
            parts += [ref("v", "T", [rng.randint(0, 3)], c.cont["T"]["t"]), block(n1, [acc("v", [1], p), ("c", one, t)], acc("v", [0], p))]
        elif k == "arr":
            parts.append(up("i", 0, 5, [block(n1, [acc("T", ["i"], c.cont["T"]["t"]), acc("B", [["+", "i", j]], p)], acc("T", [["+", "i", 1]], c.cont["T"]["t"]))]))
        elif k == "mat":
            parts.append(up("i", 0, 3, [block(n1, [acc("M", ["i", rng.randint(0, 2)], c.cont["M"]["t"]), ("c", one, t)],
                                             acc("M", [["+", "i", 1], rng.randint(0, 2)], c.cont["M"]["t"]))]))
        elif k == "heap":
            parts += [lib(rng.choice([dict(lib="malloc", size=8 * sz), dict(lib="calloc", num=8, size=sz)]), [], [("_ret", "H", p)]),
                      up("i", 0, 8, [block("assign", [acc("A", ["i"], p)], acc("H", ["i"], p))]),
                      up("i", 1, 7, [block(n1, [acc("H", [["-", "i", 1]], p), acc("H", [["+", "i", 1]], p)], acc("B", ["i"], p))]),
                      lib(dict(lib="free"), [("_ptr", "H", VP)], [("_ptr", "H", VP)])]
        elif k == "managed":
            parts += [up("i", 0, ["+", "n", 6], [block("assign", [acc("A", ["i"], p)], acc("Z", ["i"], p))]),
                      up("i", 0, ["+", "n", 5], [block(n1, [acc("Z", ["i"], p), acc("Z", [["+", "i", 1]], p)], acc("B", ["i"], p))])]
        elif k == "copy":
            parts += [lib(dict(lib=rng.choice(["memcpy", "memmove"]), count=["*", rng.choice([2, 4, ["min", "n", 5]]), sz]), [("_src", "A", VP)], [("_dst", "B", VP)])]
        elif k == "set":
            parts += [lib(dict(lib="memset", value=0, num=["*", rng.choice([1, 3, 5]), sz]), [], [("_ptr", "B", VP)])]
    body += parts
    body += [up("i", 0, 6, [block("assign", [acc("T", ["i"], c.cont["T"]["t"])], acc("A", [["+", "i", 8]], p))]),
             up("i", 0, 8, [block("assign", [acc("M", [["idiv", "i", 3], ["mod", "i", 3]], c.cont["M"]["t"])], acc("B", [["+", "i", 8]], p))])]
    return c, c.prog(body)


def blas(rng, lang):
    """GEMM and DOT calls, mathematical functions, external variables."""
    while True:
        g = sdfglib.LibGen(rng)
        g.set_el(rng.choice(["f64", "f32"]))
        if rng.random() < 0.4:
            p = g.dot()
            p["root"].append(block("assign", [acc("s", [], g.el)], acc("Y", [1], {"ptr": g.el})))
        else:
            p = g.gemm()
        for n in p["root"][0]["nodes"]:
            if "lib" in n:
                n["impl"] = "BLAS"
        return g, p


CODE_FAMILIES = {"tasks": tasks, "exprs": exprs, "flow": flow, "memory": memory, "blas": blas}


def code_program(fam, rng, lang):
    """(program, inputs)"""
    c, p = CODE_FAMILIES[fam](rng, lang)
    inputs = []
    for k in range(4):
        wide = rng.random() < 0.4
        lo, hi = (-100, 100) if wide else (-4, 5)
        ints = c.ints if isinstance(c.ints, dict) else None
        i = make_input(p, rng, ints or dict(n=rng.randint(0, 5), m=rng.randint(-2, 5), w=rng.randint(-3, 6), h=rng.randint(-3, 6)), lo=lo, hi=hi)
        if getattr(c, "nan", False):
            for x in p["containers"]:
                if x.get("arg") and isinstance(x["t"], dict) and str(x["t"].get("ptr")).startswith("f"):
                    d = i["h"][i["v"][x["name"]] // 1000000 - 1]["d"]
                    for j in range(len(d)):
                        if rng.random() < 0.25:
                            d[j] = NAN
        inputs.append(i)
    return p, inputs
