"""Programs with everything a document has to carry: types of every kind with storage, alignment and initializer, structures, externals,
metadata, source positions, schedules and every kind of element and library node.  They are saved and loaded, not run."""
from sdfggen import *
from sdfglib import LibGen, ten
from sdfgfam import FAMILIES

PRIMS = ["Bool", "Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Half", "BFloat", "Float", "Double",
         "X86_FP80", "FP128", "PPC_FP128"]
TEXTS = ["", "x", "a b", "0", "{1, 2}", "\"quoted\"", "back\\slash", "line\nbreak", "tab\there", "ümläut", "//", "/* */", "null", "true", "[]", "{}", "None", "%s"]
FILES = ["a.c", "dir/b.cpp", "/abs/c d.py", "ä.c", "", "x\"y.c"]
CMATH = {1: ["sin", "cos", "exp", "sqrt", "fabs", "floor", "erf", "tanh", "cbrt", "round"], 2: ["pow", "atan2", "fmin", "fmax", "fmod", "hypot", "copysign"], 3: ["fma"]}
CODES = {1: ["assign", "fp_neg"], 2: ["fp_add", "fp_sub", "fp_mul", "fp_div", "fp_rem"], 3: ["fp_fma"]}
ICODES = {1: ["assign", "int_abs"], 2: ["int_add", "int_sub", "int_mul", "int_sdiv", "int_srem", "int_udiv", "int_urem", "int_and", "int_or", "int_xor", "int_shl",
                                       "int_ashr", "int_lshr", "int_smin", "int_smax", "int_umin", "int_umax"]}
CCODES = ["fp_oeq", "fp_one", "fp_oge", "fp_ogt", "fp_ole", "fp_olt", "fp_ord", "fp_ueq", "fp_une", "fp_ugt", "fp_uge", "fp_ult", "fp_ule", "fp_uno"]
ICCODES = ["int_eq", "int_ne", "int_sge", "int_sgt", "int_sle", "int_slt", "int_uge", "int_ugt", "int_ule", "int_ult"]
BIG = [0, 1, -1, 7, 255, 256, 2147483647, 2147483648, -2147483648, 4294967296, 1099511627776, 9223372036854775807, -9223372036854775807]
SMALL = BIG[:7]


def dbg(r):
    n = [r.choice([0, 1, 7, 80, 4096]) for _ in range(4)]
    return [r.choice(FILES)] + ([r.choice(["f", "main", "ns::g<int>"])] if r.random() < 0.7 else []) + n


def expr(r, d=2, syms=("n", "m", "x"), consts=BIG):
    k = r.random()
    if d == 0 or k < 0.3:
        return r.choice(syms) if r.random() < 0.6 else r.choice(consts)
    s = lambda: expr(r, d - 1, syms, consts)
    small = lambda: ["+", r.choice(syms), expr(r, d - 1, syms, SMALL)]     # the operands docc folds must fit an int
    if k < 0.5:
        return ["+", s(), s()]
    if k < 0.6:
        return ["-", s(), s()]
    if k < 0.75:
        return ["*", s(), s()]
    if k < 0.81:
        return ["max", s(), s()] + ([s()] if r.random() < 0.4 else [])
    if k < 0.87:
        return ["min", s(), s()] + ([s()] if r.random() < 0.4 else [])
    if k < 0.91:
        return ["idiv", small(), r.choice([2, 3, "m"])]
    if k < 0.94:
        return [r.choice(["mod", "imod"]), small(), r.choice([2, 3, "m"])]
    if k < 0.96:
        return ["iabs", small()]
    if k < 0.97:
        return ["pow", r.choice(syms), r.choice([2, 3])]
    return [r.choice(["zext_i64", "trunc_i32"]), s()]


def cond(r, d=2, syms=("n", "m", "x")):
    k = r.random()
    if d == 0 or k < 0.55:
        return [r.choice(["<", "<=", ">", ">=", "==", "!="]), expr(r, 1, syms), expr(r, 1, syms)]
    if k < 0.95:
        return [r.choice(["and", "or"]), cond(r, d - 1, syms), cond(r, d - 1, syms)]
    return ["not", cond(r, d - 1, syms)]


def storage(r):
    s = dict(v=r.choice(["CPU_Stack", "CPU_Heap", "NV_Generic", "NV_Global", "NV_Shared", "NV_Constant", "Other place"]))
    if r.random() < 0.5:
        s["size"] = expr(r, 1)
    s["alloc"], s["dealloc"] = r.random() < 0.4, r.random() < 0.4
    if r.random() < 0.3:
        s["arg"] = expr(r, 1)
    return s


def rich_type(r, d=2, structs=(), top=True):
    k = r.random()
    t = {}
    if r.random() < 0.6:
        t["st"] = storage(r)
    if r.random() < 0.5:
        t["al"] = r.choice([1, 4, 8, 64])
    if r.random() < 0.5:
        t["in"] = r.choice(TEXTS)
    if d == 0 or k < 0.35:
        return dict(t, ty="sc", p=r.choice(PRIMS))
    if k < 0.55:
        return dict(t, ty="ptr", **({} if r.random() < 0.25 else dict(e=rich_type(r, d - 1, structs, False))))
    if k < 0.75:
        return dict(t, ty="arr", n=expr(r, 1), e=rich_type(r, d - 1, structs, False))
    if structs:
        return dict(t, ty="struct", name=r.choice(structs))
    return function_type(r, r.randint(0, 2))


def function_type(r, ins, ret="Double"):
    return dict(ty="fun", r=dict(ty="sc", p=ret), va=r.random() < 0.3, ps=[dict(ty="sc", p="Double") for _ in range(ins)])


class Rich:
    def __init__(self, rng, calls=True):
        self.r = r = rng
        self.calls = calls
        self.structs, self.structures = [], []
        for i in range(r.randint(0, 3)):
            self.structures.append(dict(name="S%d" % i, packed=r.random() < 0.4, members=[rich_type(r, 1, self.structs, False) for _ in range(r.randint(1, 4))]))
            self.structs.append("S%d" % i)
        self.cont = [dict(name=c, t="i64", arg=c in "nm") for c in ("n", "m", "x", "y", "i", "j", "k", "l")]
        self.cont += [dict(name=c, t="f64") for c in ("s", "t", "u")]
        self.cont += [dict(name=c, t={"ptr": "f64"}, arg=True) for c in ("A", "B")] + [dict(name="C", t=dict(arr="f64", n=8)), dict(name="q", t="bool"), dict(name="P", t={"ptr": "f64"})]
        for i in range(r.randint(0, 5)):
            self.cont.append(dict(name="R%d" % i, t=rich_type(r, 3, self.structs)))
        r.shuffle(self.cont)
        self.ext, self.free, self.inwhile, self.ret = [], ["i", "j", "k", "l"], False, r.random() < 0.5

    def external(self, t):
        n = "e%d" % len(self.ext)
        self.ext.append(dict(name=n, t=t, internal=self.r.random() < 0.4))
        return n

    def mark(self, x):
        if self.r.random() < 0.5:
            x["dbg"] = dbg(self.r)
        return x

    def place(self, b, names, float_=True):
        r = self.r
        c = r.choice(names)
        n = b.node(acc=c)
        if c in "AB":
            return n, [expr(r, 2)], {"ptr": "f64"}
        if c == "C":
            return n, [expr(r, 2)], dict(arr="f64", n=8)
        return n, [], "f64" if float_ else "i64"

    def tasklet(self):
        r = self.r
        b = Blk()
        k = r.random()
        fl = k < 0.5 or 0.75 < k
        comp = k >= 0.7
        arity = 2 if comp else r.choice([1, 2, 3]) if fl else r.choice([1, 2])
        code = r.choice(CCODES if fl else ICCODES) if comp else r.choice((CODES if fl else ICODES)[arity])
        ops = []
        for _ in range(arity):
            if r.random() < 0.25:
                ops.append(("c", r.choice(["1.5", "-0.0", "1e+300", "INFINITY"] if fl else ["0", "-3", "9223372036854775807"]), "f64" if fl else "i64"))
            else:
                n, s, t = self.place(b, ["A", "B", "C", "s", "t"] if fl else ["x", "y", "n"], fl)
                ops.append(("acc", n, s, t))
        if comp:
            b.tasklet(code, ops, [("acc", b.node(acc="q"), [], "bool")])
        else:
            outs = [("acc",) + self.place(b, ["A", "B", "C", "s", "t", "u"] if fl else ["x", "y"], fl)]
            b.tasklet(code, ops, outs)
        return b

    def lib(self):
        r = self.r
        b = Blk()
        k = r.random()
        if k < 0.2 and self.calls:
            n = r.randint(0, 3)
            conns = ["_in%d" % i for i in range(n)]
            out = r.random() < 0.6
            if r.random() < 0.5:
                f = self.external(function_type(r, n, "Double" if out else "Void"))
                l = b.node(lib="call", callee=f, ins=conns, outs=["_ret"] if out else [])
            else:
                l = b.node(lib="invoke", callee=self.external(function_type(r, n, "Double" if out else "Void")), ins=conns, outs=["_ret"] if out else [])
            for c, a in zip(conns, r.sample("stu", n)):
                b.edges.append(dict(s=b.node(acc=a), d=l, dc=c, sub=[], t="f64"))
            if out:
                b.edges.append(dict(s=l, sc="_ret", d=b.node(acc="s"), sub=[], t="f64"))
        elif k < 0.3:
            l = b.node(lib="metadata", ins=["a"], outs=["b"], md={r.choice(["k", "key 2", "ö"]): r.choice(TEXTS) for _ in range(r.randint(0, 3))})
            b.edges.append(dict(s=b.node(acc="s"), d=l, dc="a", sub=[], t="f64"))
            b.edges.append(dict(s=l, sc="b", d=b.node(acc="t"), sub=[], t="f64"))
        elif k < 0.42:
            t = dict(arr="f64", n=r.choice([1, 2, 8]))
            n = 8 * t["n"]
            d = dict(file=r.choice(["w.bin", "dir/w x.bin"]), bytes=n) if r.random() < 0.3 else dict(data=[r.randrange(256) for _ in range(n)])
            l = b.node(lib="loadconst", t=t, **d)
            b.edges.append(dict(s=l, sc="_out", d=b.node(acc="A"), sub=[], t={"ptr": "f64"}))
        elif k < 0.5:
            b.node(lib=r.choice(["barrier", "trap", "unreachable"]))
        elif k < 0.62:
            a = r.choice([1, 2, 3])
            l = b.node(lib="cmath", fn=r.choice(CMATH[a]), p="f64")
            for i, x in enumerate(r.sample("stu", a)):
                b.edges.append(dict(s=b.node(acc=x), d=l, dc="_in%d" % (i + 1), sub=[], t="f64"))
            b.edges.append(dict(s=l, sc="_out", d=b.node(acc="s"), sub=[], t="f64"))
        elif k < 0.82:
            c = r.choice(["memcpy", "memmove", "memset", "malloc", "calloc", "alloca", "free"])
            pt = {"ptr": "f64"}
            l = b.node(lib=c, **dict(memcpy=dict(count=expr(r)), memmove=dict(count=expr(r)), memset=dict(value=expr(r, 1), num=expr(r)), malloc=dict(size=expr(r)),
                                     calloc=dict(num=expr(r), size=expr(r, 1)), alloca=dict(size=expr(r)), free={})[c])
            if c in ("memcpy", "memmove"):
                b.edges += [dict(s=b.node(acc="A"), d=l, dc="_src", sub=[], t=pt), dict(s=l, sc="_dst", d=b.node(acc="B"), sub=[], t=pt)]
            elif c == "memset":
                b.edges.append(dict(s=l, sc="_ptr", d=b.node(acc="B"), sub=[], t=pt))
            elif c == "free":
                b.edges += [dict(s=b.node(acc="P"), d=l, dc="_ptr", sub=[], t=pt), dict(s=l, sc="_ptr", d=b.node(acc="P"), sub=[], t=pt)]
            else:
                b.edges.append(dict(s=l, sc="_ret", d=b.node(acc="P"), sub=[], t=pt))
        else:
            a = b.node(acc=r.choice("AB"))
            p = b.node(acc="P")
            b.edges.append(dict(s=a, d=p, sc="void", dc="ref", sub=[expr(r)], t={"ptr": "f64"}))
            if r.random() < 0.5:
                d = b.node(acc=r.choice("st"))
                if r.random() < 0.5:
                    b.edges.append(dict(s=p, d=d, sc="void", dc="deref", sub=[0], t={"ptr": "f64"}))
                else:
                    q = b.node(acc="P")
                    b.edges.append(dict(s=d, d=q, sc="deref", dc="void", sub=[0], t={"ptr": "f64"}))
        return b

    def stmt(self, b):
        for x in b.nodes + b.edges:
            self.mark(x)
        return dict(k="block", nodes=b.nodes, edges=b.edges)

    def tr(self):
        r = self.r
        return [[c, expr(r)] for c in r.sample(["x", "y"], r.randint(1, 2))] if r.random() < 0.3 else []

    def body(self, d, least=1):
        return [self.statement(d) for _ in range(self.r.randint(least, 3))]

    def statement(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.45:
            x = self.stmt(self.tasklet() if r.random() < 0.6 else self.lib())
            if r.random() < 0.05:
                x = dict(k="block", nodes=[], edges=[])
        elif k < 0.7 and self.free:
            iv = self.free.pop(r.randrange(len(self.free)))
            w, self.inwhile = self.inwhile, False
            x = dict(k=r.choice(["for", "map"]), iv=iv, init=expr(r), cond=r.choice([["<", iv, expr(r)], ["and", ["<", iv, "n"], ["<=", iv, expr(r)]], ["!=", iv, 9]]),
                     upd=["+", iv, r.choice([1, 2, 3])], body=self.body(d - 1))
            self.inwhile = w
            if x["k"] == "map" and r.random() < 0.7:
                x["sched"] = dict(v=r.choice(["SEQUENTIAL", "CPU_PARALLEL", "CUDA", "VECTORIZE", "mine"]), c=r.randint(0, 3),
                                  p={r.choice(["num_threads", "omp_schedule", "block size", "z"]): r.choice(TEXTS + ["8"]) for _ in range(r.randint(0, 3))})
            self.free.append(iv)
        elif k < 0.85:
            x = dict(k="if", cases=[self.mark(dict(c=cond(r), body=self.body(d - 1, 0))) for _ in range(r.randint(1, 3))])
        elif k < 0.92:
            w, self.inwhile = self.inwhile, True
            x = dict(k="while", body=self.body(d - 1) + [dict(k="if", cases=[dict(c=cond(r), body=[self.mark(dict(k=r.choice(["break", "continue"])))])])])
            self.inwhile = w
        elif k < 0.97:
            x = dict(k="seq", body=self.body(d - 1))
        elif self.ret:
            x = dict(k="if", cases=[dict(c=cond(r), body=[self.returns()])])
        else:
            x = dict(k="block", nodes=[], edges=[])
        t = self.tr()
        if t:
            x["tr"] = t
        return self.mark(x)

    def returns(self):
        r = self.r
        return self.mark(dict(k="return", data="s") if r.random() < 0.5 else dict(k="return", const=r.choice(["0", "1.5", "-2"]), t=dict(ty="sc", p="Double", al=r.choice([0, 8]))))

    def program(self):
        r = self.r
        root = [self.statement(3) for _ in range(r.randint(1, 4))]
        if self.ret:
            root.append(self.returns())
        for _ in range(r.randint(0, 2)):
            self.external(r.choice([function_type(r, r.randint(0, 2)), rich_type(r, 2, self.structs)]))
        p = dict(name=r.choice(["f", "kernel_1", "__daisy_x"]), containers=self.cont + [dict(name=e["name"], t=e["t"], ext=True) for e in []], root=root,
                 structures=self.structures, externals=self.ext, metadata={r.choice(["source", "id 2", "ä", "opt"]): r.choice(TEXTS) for _ in range(r.randint(0, 3))})
        if self.ret:
            p["ret"] = dict(ty="sc", p="Double") if r.random() < 0.5 else "f64"
        if r.random() < 0.2:
            p["nv"] = True
        return p


def every_node(r):
    """A program around a library node, with positions and an implementation type."""
    while True:
        g = LibGen(r)
        k = r.random()
        sh = g.dims(1, 3)
        if k < 0.55:
            p = g.case()
        elif k < 0.75:
            p = g.unary(r.choice(["ReLU", "Sqrt", "Exp", "Tanh", "Erf", "Sigmoid", "LeakyReLU", "HardSigmoid", "Elu"]))
        elif k < 0.82:
            p = g.binary("Pow")
        elif k < 0.9:
            a = r.choice([1, 2])
            ins = ["_in%d" % (i + 1) for i in range(a)]
            p = g.prog(dict(lib="CMath", fn=r.choice(CMATH[a]), ins=ins, shape=sh), [(c, "XW"[i], g.view(sh)) for i, c in enumerate(ins)], [("_out", "Y", g.view(sh))])
        else:
            ax = sorted(r.sample(range(len(sh)), r.randint(1, len(sh))))
            keep = r.random() < 0.5
            osh = sh if (kind := r.choice(["Softmax", "Std"])) == "Softmax" else [1 if i in ax else d for i, d in enumerate(sh)] if keep else [d for i, d in enumerate(sh) if i not in ax]
            p = g.prog(dict(lib=kind, shape=sh, axes=ax, keep=keep and kind != "Softmax"), [("X", "X", g.view(sh))], [("Y", "Y", g.view(osh))]) if osh else None
        if not p:
            continue
        for s in p["root"]:
            for x in [s] + s["nodes"] + s["edges"]:
                if r.random() < 0.5:
                    x["dbg"] = dbg(r)
                if x.get("lib") in ("GEMM", "DOT") and r.random() < 0.7:
                    x["impl"] = r.choice(["BLAS", "CUBLASWithTransfers", "CUBLASWithoutTransfers"])
        return p


def rich(r):
    return Rich(r).program()
