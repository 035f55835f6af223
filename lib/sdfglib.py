"""Programs around one library node, with inputs: every kind of node docc can expand, and the stdlib nodes."""
from sdfggen import *

UN = ["Abs", "ReLU", "Fill", "Cast"]
UN_OPAQUE = ["Sqrt", "Exp", "Tanh", "Erf", "Sigmoid", "LeakyReLU", "HardSigmoid", "Elu"]
BIN = ["Add", "Sub", "Mul", "Maximum", "Minimum", "Div"]
RED = ["Sum", "Max", "Min", "Mean"]
CELLS = 60


def rowmajor(sh):
    st, p = [], 1
    for d in reversed(sh):
        st.insert(0, p)
        p = p * d if isinstance(p, int) and isinstance(d, int) else (d if p == 1 else ["*", p, d])
    return st


def ten(sh, el, strides=None, off=0):
    return dict(tensor=sh, el=el, strides=strides or rowmajor(sh), off=off)


class LibGen:
    """node(kind) returns (program, integers, whether the specification gives it an exact meaning)."""

    def __init__(self, rng):
        self.r = rng
        self.cont = [dict(name=c, t={"ptr": "f64"}, arg=True, cells=CELLS) for c in ("X", "W", "Y")]
        self.cont += [dict(name=c, t="i64", arg=True) for c in ("n", "m", "k")]
        self.cont += [dict(name="s", t="f64", arg=True)]
        self.ints = dict(n=rng.randint(1, 3), m=rng.randint(1, 3), k=rng.randint(1, 3))
        self.el = "f64"

    def set_el(self, el):
        self.el = el
        for c in self.cont[:3]:
            c["t"] = {"ptr": el}
        self.cont[6]["t"] = el

    def dim(self):
        r = self.r
        return r.choice(["n", "m", "k"]) if r.random() < 0.4 else r.randint(1, 3)

    def val(self, d):
        return d if isinstance(d, int) else self.ints[d]

    def dims(self, lo, hi):
        return [self.dim() for _ in range(self.r.randint(lo, hi))]

    def view(self, sh):
        """A tensor type of this shape: row-major, offset, or permuted/padded strides, inside CELLS cells."""
        r = self.r
        if r.random() < 0.6 or not sh:
            return ten(sh, self.el)
        vs = [self.val(d) for d in sh]
        k = r.random()
        if k < 0.4:
            return ten(sh, self.el, None, r.randint(1, 4))
        order = list(range(len(sh)))
        if k < 0.8:
            r.shuffle(order)
        st, p = [0] * len(sh), r.choice([1, 1, 2])
        for i in order:
            st[i] = p
            p *= vs[i] + (r.random() < 0.3)
        if p > CELLS - 6:
            return ten(sh, self.el)
        return ten(sh, self.el, st, r.choice([0, 0, 3]))

    def fits(self, *shapes):
        for sh in shapes:
            p = 1
            for d in sh:
                p *= self.val(d)
            if p > CELLS - 8:
                return False
        return True

    def prog(self, node, ins, outs, tr=None):
        """ins/outs: (connector, container, memlet type) or (connector, constant text)."""
        b = Blk()
        l = b.node(**node)
        seen, tensor = {}, node["lib"] not in ("GEMM", "DOT")
        for i in ins:
            if len(i) == 2:
                s = b.node(const=i[1], t=self.el)
                b.edges.append(dict(s=s, d=l, dc=i[0], sub=[], t=ten([], self.el) if tensor else self.el))
            else:
                if i[1] not in seen:
                    seen[i[1]] = b.node(acc=i[1])
                s = seen[i[1]]
                b.edges.append(dict(s=s, d=l, dc=i[0], sub=[], t=i[2]))
        for o in outs:
            d = b.node(acc=o[1])
            b.edges.append(dict(s=l, sc=o[0], d=d, sub=[], t=o[2]))
        return dict(name="f", containers=self.cont, root=[b.stmt(tr)])

    def unary(self, kind):
        r = self.r
        sh = self.dims(1, 3)
        if kind == "Fill":
            src = ("X", "s", ten([], self.el)) if r.random() < 0.5 else ("X", r.choice(["3", "0", "-2"]) + (".0" if self.el[0] == "f" else ""))
            return self.prog(dict(lib="Fill", shape=sh), [src], [("Y", "Y", self.view(sh))])
        n = dict(lib=kind, shape=sh)
        if kind == "Cast":
            n["to"] = self.el
        return self.prog(n, [("X", "X", self.view(sh))], [("Y", "Y", self.view(sh))])

    def binary(self, kind):
        sh = self.dims(1, 3)
        r = self.r
        a, b = self.view(sh), self.view(sh)
        B = ("B", "W", b)
        if r.random() < 0.15:
            B = ("B", "s", ten([], self.el))
        elif r.random() < 0.1:
            B = ("B", "2.0" if self.el[0] == "f" else "2")
        elif r.random() < 0.1:
            B = ("B", "X", b)
        return self.prog(dict(lib=kind, shape=sh), [("A", "X", a), B], [("C", "Y", self.view(sh))])

    def tasklet(self):
        r = self.r
        sh = self.dims(1, 3)
        code, n = r.choice([("fp_add", 2), ("fp_fma", 3), ("fp_sub", 2), ("fp_neg", 1), ("assign", 1), ("fp_mul", 2)] if self.el[0] == "f" else
                           [("int_add", 2), ("int_sub", 2), ("int_smax", 2), ("int_mul", 2), ("assign", 1), ("int_abs", 1)])
        ins = ["_in%d" % i for i in range(n)]
        ops = [(c, *r.choice([("X", self.view(sh)), ("W", self.view(sh)), ("s", ten([], self.el))])) for c in ins]
        return self.prog(dict(lib="Tasklet", code=code, ins=ins, shape=sh), ops, [("_out", "Y", self.view(sh))])

    def reduce(self, kind):
        r = self.r
        sh = self.dims(1, 3)
        ax = sorted(r.sample(range(len(sh)), r.randint(1, len(sh))))
        axes = [a - len(sh) if r.random() < 0.2 else a for a in ax]
        keep = r.random() < 0.5
        osh = [1 if i in ax else d for i, d in enumerate(sh)] if keep else [d for i, d in enumerate(sh) if i not in ax]
        if not osh:
            return None
        return self.prog(dict(lib=kind, shape=sh, axes=axes, keep=keep), [("X", "X", self.view(sh))], [("Y", "Y", self.view(osh))])

    def transpose(self):
        sh = self.dims(2, 3)
        p = list(range(len(sh)))
        self.r.shuffle(p)
        return self.prog(dict(lib="Transpose", shape=sh, perm=p), [("X", "X", self.view(sh))], [("Y", "Y", self.view([sh[i] for i in p]))])

    def broadcast(self):
        r = self.r
        osh = self.dims(1, 3)
        sh = [1 if r.random() < 0.5 else d for d in osh]
        if r.random() < 0.4:
            sh = sh[r.randint(0, len(sh) - 1):]
        return self.prog(dict(lib="Broadcast", shape=sh, oshape=osh), [("X", "X", self.view(sh))], [("Y", "Y", self.view(osh))])

    def matmul(self):
        r = self.r
        M, K, N = self.dim(), self.dim(), self.dim()
        batch = self.dims(0, 1) if r.random() < 0.5 else []
        ba = batch if r.random() < 0.7 else []
        bb = batch if r.random() < 0.7 or not ba else []
        sa, sb = ba + [M, K], bb + [K, N]
        osh = (ba or bb) + [M, N]
        n = dict(lib="MatMul", sa=sa, sb=sb)
        ta, tb = ten(sa, self.el), ten(sb, self.el)
        if r.random() < 0.5:
            ta, tb = self.view(sa), self.view(sb)
            n.update(sta=ta["strides"], stb=tb["strides"], offa=ta["off"], offb=tb["off"])
        return self.prog(n, [("A", "X", ta), ("B", "W", tb)], [("Y", "Y", ten(osh, self.el))])

    def conv(self):
        r = self.r
        nd = r.choice([1, 1, 2])
        g = r.choice([1, 1, 2])
        cin, oc = g * r.choice([1, 1, 2]), g * r.choice([1, 1, 2])
        ks = [r.randint(1, 2) for _ in range(nd)]
        st = [r.randint(1, 2) for _ in range(nd)]
        dl = [r.choice([1, 1, 2]) for _ in range(nd)]
        pd = [r.choice([0, 0, 1]) for _ in range(2 * nd)]
        sp = [r.randint(2, 4 if nd == 1 else 3) for _ in range(nd)]
        osp = [(sp[i] + pd[i] + pd[i + nd] - dl[i] * (ks[i] - 1) - 1) // st[i] + 1 for i in range(nd)]
        if min(osp) < 1:
            return None
        N = r.choice([1, 1, 2])
        sh = [N, cin] + sp
        w = [oc, cin // g] + ks
        if not self.fits(sh, w, [N, oc] + osp):
            return None
        n = dict(lib="Conv", shape=sh, kernel=ks, strides=st, pads=pd, dil=dl, oc=oc, group=g)
        ins = [("X", "X", ten(sh, self.el)), ("W", "W", ten(w, self.el))]
        if r.random() < 0.3:
            self.cont.append(dict(name="Bi", t={"ptr": self.el}, arg=True, cells=CELLS))
            ins.append(("B", "Bi", ten([oc], self.el)))
        return self.prog(n, ins, [("Y", "Y", ten([N, oc] + osp, self.el))])

    def dot(self):
        r = self.r
        n = dict(lib="DOT", n=self.dim(), incx=r.choice([1, 1, 2]), incy=r.choice([1, 1, 3]), prec="d" if self.el == "f64" else "s")
        pt = {"ptr": self.el}
        return self.prog(n, [("__x", "X", pt), ("__y", "W", pt)], [("__out", "s", self.el)])

    def gemm(self):
        r = self.r
        m, n, k = self.dim(), self.dim(), self.dim()
        row = True
        node = dict(lib="GEMM", m=m, n=n, k=k, lda=k, ldb=n, ldc=n, row=row, prec="d" if self.el == "f64" else "s")
        if r.random() < 0.4:
            node.update(lda=4, ldb=5, ldc=4)
        pt = {"ptr": self.el}
        c = lambda: r.choice(["1.0", "1.0", "2.0", "-1.0", "0.0"])
        return self.prog(node, [("__A", "X", pt), ("__B", "W", pt), ("__C", "Y", pt), ("__alpha", c()), ("__beta", c())], [("__C", "Y", pt)])

    def case(self):
        r = self.r
        k = r.random()
        if r.random() < 0.25:
            self.set_el(r.choice(["f32", "i64", "i32"]))
        fl = self.el[0] == "f"
        if k < 0.12:
            return self.unary(r.choice(["Abs", "Fill", "Cast"] + (["ReLU"] if fl else [])))
        if k < 0.28:
            return self.binary(r.choice(BIN))
        if k < 0.36:
            return self.tasklet()
        if k < 0.5:
            return self.reduce(r.choice(["Sum", "Max", "Min"] + (["Mean"] if fl else [])))
        if k < 0.6:
            return self.transpose()
        if k < 0.7:
            return self.broadcast()
        if not fl:
            self.set_el("f64")
        if k < 0.8:
            return self.matmul()
        if k < 0.9:
            return self.conv()
        if k < 0.95:
            p = self.dot()
            p["root"].append(block("assign", [acc("s", [], self.el)], acc("Y", [1], {"ptr": self.el})))
            return p
        return self.gemm()


def lib_program(rng):
    while True:
        g = LibGen(rng)
        p = g.case()
        if p:
            return p, g.ints
