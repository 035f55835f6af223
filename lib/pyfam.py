"""Families of kernels for the Python frontend (P01)."""
from pygen import *


def views_of(e, a):
    """Does e look at array a otherwise than element for element?"""
    if isinstance(e, list):
        return any(views_of(x, a) for x in e)
    if not isinstance(e, dict):
        return False
    if e.get("t") == "idx" or (e.get("t") == "call" and e["f"] in ("transpose", "flip")):
        return V(a) in (e.get("a"), e.get("args", [None])[0])
    return any(views_of(x, a) for x in e.values())


class Gen:
    """Type- and shape-consistent expressions and statements over the names in scope."""

    def __init__(self, rnd, opt=()):
        self.r, self.opt = rnd, set(opt)
        self.sc = {}          # scalar name -> kind
        self.ar = {}          # array name -> (kind, shape)
        self.ix = {}          # loop variable -> dimension it stays below
        self.fixed = set()    # names not to be assigned
        self.fns, self.n, self.inloop = {}, 0, 0
        self.dimsrc = {}      # dimension -> expression
        self.avoid = set()    # arrays not to be looked at

    def pick(self, *xs):
        return self.r.choice(xs)

    def new(self, p="t"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- scalars
    def index(self, d):
        """A valid index for dimension d."""
        own = [x for x, y in self.ix.items() if y == d]
        if own and self.r.random() < 0.75:
            return V(self.r.choice(own))
        if "negidx" in self.opt and self.r.random() < 0.3:
            return dict(t="neg", a=C(self.pick(1, 2)))
        return C(self.pick(0, 1))

    def element(self, kind):
        own = [(a, sh) for a, (k, sh) in self.ar.items() if k == kind]
        if not own:
            return None
        a, sh = self.r.choice(own)
        return IX(V(a), *[at(self.index(d)) for d in sh])

    def leaf(self, kind):
        own = [x for x, k in self.sc.items() if k == kind]
        c = self.r.random()
        if c < 0.45 and own:
            return V(self.r.choice(own))
        if c < 0.8 and kind != "b":
            e = self.element(kind)
            if e:
                return e
        if kind == "i":
            if self.ix and self.r.random() < 0.4:
                return V(self.r.choice(sorted(self.ix)))
            return C(self.pick(0, 1, 2, 3, 5))
        if kind == "f":
            return C(self.pick(0.0, 0.5, 1.0, 1.5, 2.0, 3.0))
        return C(self.pick(True, False))

    def scalar(self, kind, d=2):
        if d <= 0 or self.r.random() < 0.2:
            return self.leaf(kind)
        if kind == "b":
            return self.cond(d)
        c = self.r.random()
        if c < 0.55:
            op = self.pick("+", "-", "*")
            if kind == "i":
                return B(op, self.scalar("i", d - 1), self.scalar("i", d - 1))
            k2 = "i" if self.r.random() < 0.2 else "f"
            a, b = self.scalar("f", d - 1), self.scalar(k2, d - 1)
            return B(op, *((a, b) if self.r.random() < 0.6 else (b, a)))
        if c < 0.65:
            if kind == "f" and self.r.random() < 0.3:
                return B(self.pick("%", "//"), self.scalar("f", d - 1), C(self.pick(2.0, 0.5, 1.5, -2.0)))
            if kind == "f":
                return B("/", self.scalar(self.pick("f", "i"), d - 1), C(self.pick(2.0, 4.0, 0.5)) if self.r.random() < 0.5 else C(self.pick(2, 4)))
            op = self.pick("%", "//", "%", "//", "<<", ">>", "&", "|", "^")
            if op in ("<<", ">>"):
                return B(op, self.scalar("i", d - 1), C(self.pick(1, 2)))
            if op in "&|^":
                return B(op, self.scalar("i", d - 1), self.scalar("i", d - 1))
            return B(op, self.scalar("i", d - 1), C(self.pick(2, 3, 5, -2, -3)))
        if c < 0.75:
            return F(self.pick("minp", "maxp"), self.scalar(kind, d - 1), self.scalar(kind, d - 1))
        if c < 0.8:
            return dict(t="neg", a=self.scalar(kind, d - 1))
        if c < 0.92:
            return F("float", self.scalar("i", d - 1)) if kind == "f" else F("int", self.scalar("f", d - 1))
        if kind == "i" and self.ar and self.r.random() < 0.6:
            a = self.r.choice(sorted(self.ar))
            return F("shape", V(a), d=self.r.randrange(len(self.ar[a][1])))
        if kind == "f" and self.r.random() < 0.5:
            return B("**", self.scalar("f", d - 1), C(2))
        if self.fns and self.r.random() < 0.7:
            own = [n for n, f in self.fns.items() if f["kind"] == kind]
            if own:
                n = self.r.choice(own)
                return F("user", *[self.scalar(k, d - 1) for k in self.fns[n]["kinds"]], name=n)
        return self.leaf(kind)

    def cond(self, d=2):
        c = self.r.random()
        if d <= 0 or c < 0.6:
            k = self.pick("i", "f")
            return B(self.pick("<", "<=", ">", ">=", "==", "!="), self.scalar(k, d - 1), self.scalar(k, d - 1))
        if c < 0.85:
            return dict(t=self.pick("and", "or"), a=self.cond(d - 1), b=self.cond(d - 1))
        return dict(t="not", a=self.cond(d - 1))

    # ---- arrays
    def dimslice(self, base, d):
        """A slice of a dimension that leaves the wanted one: the dimension, one less (N1), every other element (Nh)."""
        m1 = dict(t="neg", a=C(1))
        if d == base:
            return self.pick(sl(), sl(), sl(C(0)), sl(step=m1)) if "rev" in self.opt else sl()
        if d == base + "1":
            return self.pick(sl(C(1)), sl(hi=m1), sl(C(0), m1), sl(C(1), self.dimsrc[base]))
        if d == base + "h":
            return self.pick(sl(step=C(2)), sl(C(0), step=C(2)))
        return None

    def sliced(self, kind, sh):
        c = []
        for a, (k, s) in sorted(self.ar.items()):
            if k != kind or a in self.avoid:
                continue
            if len(s) == len(sh):
                q = [self.dimslice(x, y) for x, y in zip(s, sh)]
                if None not in q:
                    c.append(IX(V(a), *q))
            if len(s) == 2 and len(sh) == 1:
                q = self.dimslice(s[1], sh[0])
                if q:
                    c.append(IX(V(a), at(self.index(s[0])), q))
                q = self.dimslice(s[0], sh[0])
                if q:
                    c.append(IX(V(a), q, at(self.index(s[1]))))
        return self.r.choice(c) if c else F("zeros", *[self.dim(d) for d in sh], dt=kind)

    def dim(self, d):
        if d.endswith("1"):
            return B("-", self.dimsrc[d[:-1]], C(1))
        if d.endswith("h"):
            return B("//", B("+", self.dimsrc[d[:-1]], C(1)), C(2))
        return self.dimsrc[d]

    def arr_leaf(self, kind, sh):
        if "slices" in self.opt:
            return self.sliced(kind, sh)
        own = [a for a, (k, s) in self.ar.items() if k == kind and s == sh]
        if own and self.r.random() < 0.8:
            return V(self.r.choice(own))
        c = []
        for a, (k, s) in sorted(self.ar.items()):
            if k != kind:
                continue
            if len(sh) == 1 and len(s) == 2:
                if s[1] == sh[0]:
                    c.append(IX(V(a), at(self.index(s[0])), sl()))
                if s[0] == sh[0]:
                    c.append(IX(V(a), sl(), at(self.index(s[1]))))
            if len(sh) == 2 and s == sh[::-1]:
                c.append(F("transpose", V(a), perm=[], T=True))
        if c and self.r.random() < 0.8:
            return self.r.choice(c)
        if own:
            return V(self.r.choice(own))
        return F(self.pick("zeros", "ones"), *[self.dim(d) for d in sh], dt=kind)

    def arr(self, kind, sh, d=2):
        if d <= 0 or self.r.random() < 0.2:
            return self.arr_leaf(kind, sh)
        c = self.r.random()
        if c < 0.45:
            op = self.pick("+", "-", "*")
            a = self.arr(kind, sh, d - 1)
            q = self.r.random()
            b = self.arr(kind, sh, d - 1) if q < 0.5 else self.scalar(kind, 1) if q < 0.8 else self.arr(kind, sh[1:], d - 1) if len(sh) == 2 else self.leaf(kind)
            if a == b:
                return a
            return B(op, *((a, b) if self.r.random() < 0.6 else (b, a)))
        if c < 0.55:
            a, b = self.arr(kind, sh, d - 1), self.arr(kind, sh, d - 1)
            return a if a == b else F(self.pick("minimum", "maximum", "add", "subtract", "multiply"), a, b)
        if c < 0.6:
            return dict(t="neg", a=self.arr(kind, sh, d - 1))
        if c < 0.66:
            return F("npabs", self.arr(kind, sh, d - 1))
        if c < 0.72 and "where" in self.opt:
            a, b = self.arr(kind, sh, d - 1), self.pick(self.leaf(kind), self.arr(kind, sh, d - 1))
            m = B(self.pick("<", ">", "<=", ">=", "==", "!="), a, b if a != b else C(1 if kind == "i" else 1.0))
            return F("where", m, self.arr(kind, sh, d - 1), self.arr(kind, sh, d - 1))
        if c < 0.78 and "views" in self.opt:
            return self.pick(F("flip", self.arr_leaf(kind, sh), axis=[self.r.randrange(len(sh))]),
                             F("copy", V(self.r.choice(own))) if (own := [a for a, (k, s) in self.ar.items() if k == kind and s == sh]) else self.arr_leaf(kind, sh))
        if c < 0.84 and "reduce" in self.opt and len(sh) == 1:
            s2 = self.pick((sh[0], "M"), ("N", sh[0]))
            ax = 1 if s2[0] == sh[0] and (s2[1] != sh[0] or self.r.random() < 0.5) else 0
            return F(self.pick("sum", "max", "min"), self.arr(kind, s2, d - 1), axis=[ax - (2 if self.r.random() < 0.3 else 0)], keep=False)
        if c < 0.9 and "linalg" in self.opt:
            if len(sh) == 2:
                m = self.pick("N", "M")
                return self.pick(B("@", self.arr_leaf(kind, (sh[0], m)), self.arr_leaf(kind, (m, sh[1]))),
                                 F("outer", self.arr_leaf(kind, sh[:1]), self.arr_leaf(kind, sh[1:]), op="*"))
            m = self.pick("N", "M")
            return self.pick(B("@", self.arr_leaf(kind, (sh[0], m)), self.arr_leaf(kind, (m,))), F("dot", self.arr_leaf(kind, (sh[0], m)), self.arr_leaf(kind, (m,))))
        if c < 0.95 and "cast" in self.opt:
            own = [a for a, (k, s) in self.ar.items() if s == sh]
            return F("astype", V(self.r.choice(own)), dt=kind) if own else self.arr_leaf(kind, sh)
        return self.arr_leaf(kind, sh)

    # ---- statements
    def assign_scalar(self):
        own = [x for x in self.sc if x not in self.fixed]
        if own and self.r.random() < 0.6:
            x = self.r.choice(own)
            if self.r.random() < 0.4 and self.sc[x] != "b":
                return dict(t="aug", x=x, op=self.pick("+", "-", "*"), e=self.scalar(self.sc[x], 2))
            return dict(t="asg", x=x, e=self.scalar(self.sc[x], 2))
        k = self.pick("i", "f")
        e = self.scalar(k, 2)
        x = self.new("s")
        if not self.inloop:
            self.sc[x] = k
            return dict(t="asg", x=x, e=e)
        if own:
            x = self.r.choice(own)
            return dict(t="asg", x=x, e=self.scalar(self.sc[x], 2))
        return dict(t="pass")

    def store_element(self):
        own = [(a, k, s) for a, (k, s) in sorted(self.ar.items())]
        a, k, s = self.r.choice(own)
        ix = [at(self.index(d)) for d in s]
        if self.r.random() < 0.4:
            return dict(t="augs", a=V(a), ix=ix, op=self.pick("+", "-", "*"), e=self.scalar(k, 1))
        return dict(t="sto", a=V(a), ix=ix, e=self.scalar(k, 2))

    def loop(self, depth):
        d = self.pick("N", "M")
        x = self.pick("i", "j", "k", "l") if depth else "i"
        while x in self.ix:
            x = x + "x"
        hi = self.dimsrc[d]
        form = self.r.random()
        if form < 0.5:
            args = [hi]
        elif form < 0.7:
            args = [C(1), hi]
        elif form < 0.85:
            args = [C(self.pick(0, 1)), hi, C(2)]
        else:
            down = self.pick(1, 1, 2, 3)
            args = [B("-", hi, C(1)), self.pick(dict(t="neg", a=C(1)), C(0)) if down > 1 else dict(t="neg", a=C(1)), dict(t="neg", a=C(down))]
        return self.under(x, d, lambda: dict(t="for", x=x, args=args, body=self.block(depth - 1)))

    def under(self, x, d, f):
        keep = dict(self.sc), dict(self.ar), dict(self.ix), set(self.fixed)
        self.ix[x] = d
        self.fixed.add(x)
        self.inloop += 1
        r = f()
        self.inloop -= 1
        self.sc, self.ar, self.ix, self.fixed = keep
        return r

    def branch(self, f):
        keep = dict(self.sc), dict(self.ar)
        self.inloop += 1
        r = f()
        self.inloop -= 1
        self.sc, self.ar = keep
        return r

    def block(self, depth, n=None):
        return [self.stmt(depth) for _ in range(n or self.r.randint(1, 3))]

    def stmt(self, depth):
        c = self.r.random()
        if depth > 0 and c < 0.3:
            return self.loop(depth)
        if depth > 0 and c < 0.5:
            cnd = self.cond(2)
            th = self.branch(lambda: self.block(depth - 1))
            el = self.branch(lambda: self.block(depth - 1)) if self.r.random() < 0.5 else []
            return dict(t="if", c=cnd, th=th, el=el)
        if c < 0.75 and self.ar:
            return self.store_element()
        return self.assign_scalar()

    def results(self):
        own = sorted(self.sc)
        return [V(x) for x in self.r.sample(own, min(len(own), self.r.randint(1, 2)))] if own else [self.leaf("f")]


PARAMS = dict(A=("f", ("N", "M")), B=("f", ("N", "M")), u=("f", ("N",)), v=("f", ("M",)), I=("i", ("N", "M")), w=("i", ("N",)))


def start(rnd, arrays="Au", scalars="nx", opt=()):
    g = Gen(rnd, opt)
    ps = []
    for a in arrays:
        k, s = PARAMS[a]
        g.ar[a] = (k, s)
        ps.append((a, k, s))
    for x in scalars:
        k = "f" if x in "xy" else "i"
        g.sc[x] = k
        ps.append((x, k, None))
    for a, k, s in ps:
        for n, d in enumerate(s or ()):
            g.dimsrc.setdefault(d, F("shape", V(a), d=n))
    for d in ("N", "M"):
        g.dimsrc.setdefault(d, C(2))
    return g, ps


def prog(g, ps, body, **kw):
    fns = {n: dict(ps=f["ps"], lets=f["lets"], e=f["e"]) for n, f in g.fns.items()}
    return dict(ps=[p[0] for p in ps], params=ps, body=body, fns=fns, **kw)


# ------------------------------------------------------------------ families
def scalars(rnd):
    """Arithmetic, conditions and assignments on scalars."""
    g, ps = start(rnd, "", "nmxy")
    body = [g.stmt(2) if rnd.random() < 0.4 else g.assign_scalar() for _ in range(rnd.randint(2, 5))]
    body = [dict(s) for s in body]
    return prog(g, ps, body + [dict(t="ret", es=g.results())])


def loops(rnd):
    """Loop nests and branches over array elements."""
    g, ps = start(rnd, rnd.choice(["Au", "AB", "Iw", "AIu", "uw", "Av"]), "nx")
    if rnd.random() < 0.5:
        g.sc["acc"] = "f"
        pre = [dict(t="asg", x="acc", e=C(0.0))]
    else:
        pre = []
    for d in ("N", "M"):
        g.dimsrc.setdefault(d, C(2))
    body = pre + [g.loop(2) if rnd.random() < 0.6 else g.stmt(2) for _ in range(rnd.randint(1, 3))]
    return prog(g, ps, body + ([dict(t="ret", es=g.results())] if rnd.random() < 0.6 else []))


def elementwise(rnd):
    """Whole-array expressions with broadcasting, assigned, stored and returned."""
    g, ps = start(rnd, rnd.choice(["ABv", "ABuv", "Iw", "AIv"]), "nx", ("where",))
    return arrays(g, ps, rnd)


def arrays(g, ps, rnd):
    for d in ("N", "M"):
        g.dimsrc.setdefault(d, C(2))
    body = []
    for _ in range(rnd.randint(1, 4)):
        a = rnd.choice(sorted(g.ar))
        k, s = g.ar[a]
        c = rnd.random()
        if c < 0.5:
            x = g.new("T")
            e, f = g.arr(k, s, 2), g.arr(k, s, 1)
            body.append(dict(t="asg", x=x, e=B(g.pick("+", "-", "*"), e, f) if e != f else B("+", e, C(1 if k == "i" else 1.0))))
            g.ar[x] = (k, s)
        else:
            e = g.arr(k, s, 2)
            if views_of(e, a):        # a known finding: the places written are read through a view
                continue
            if c < 0.8 or e == V(a):
                body.append(dict(t="sto", a=V(a), ix=[sl()] * len(s), e=e))
            else:
                body.append(dict(t="augs", a=V(a), ix=[sl()] * len(s), op=g.pick("+", "-", "*"), e=e))
    a = rnd.choice(sorted(g.ar))
    k, s = g.ar[a]
    return prog(g, ps, body + [dict(t="ret", es=[g.arr(k, s, 2)] if rnd.random() < 0.6 else [V(rnd.choice(sorted(g.ar)))])])


def views(rnd):
    g, ps = start(rnd, rnd.choice(["AB", "Au", "Iw", "ABuv"]), "nx", ("views", "negidx"))
    return arrays(g, ps, rnd)


def slices(rnd):
    """Parts of arrays: bounds, steps, single rows and columns, read and stored."""
    g, ps = start(rnd, rnd.choice(["AB", "ABu", "uw", "IAv", "uv"]), "nx", ("slices", "negidx", "rev") if rnd.random() < 0.3 else ("slices", "negidx"))
    body = []
    for _ in range(rnd.randint(1, 3)):
        a = rnd.choice(sorted(g.ar))
        k, s = g.ar[a]
        sub = tuple(d + rnd.choice(["", "1", "1", "h"]) for d in s)
        keep = list(range(len(s)))
        if len(s) == 2 and rnd.random() < 0.3:
            keep = [rnd.randrange(2)]
        g.avoid = {a}
        e = g.arr(k, tuple(sub[i] for i in keep), 2) if rnd.random() < 0.85 else g.scalar(k, 1)
        g.avoid = set()
        rev = g.opt & {"rev"}
        g.opt -= {"rev"}
        ix = [g.dimslice(s[i], sub[i]) if i in keep else at(g.index(s[i])) for i in range(len(s))]
        g.opt |= rev
        if rnd.random() < 0.7:
            body.append(dict(t="sto", a=V(a), ix=ix, e=e))
        else:
            body.append(dict(t="augs", a=V(a), ix=ix, op=g.pick("+", "-", "*"), e=e))
    k, s = g.ar[rnd.choice(sorted(g.ar))]
    sh = tuple(d + rnd.choice(["", "1", "h"]) for d in s)
    return prog(g, ps, body + [dict(t="ret", es=[g.arr(k, sh, 2)])])


def reductions(rnd):
    g, ps = start(rnd, rnd.choice(["ABuv", "Auv", "I", "ABv"]), "nx", ("reduce",))
    for d in ("N", "M"):
        g.dimsrc.setdefault(d, C(2))
    a = rnd.choice(sorted(g.ar))
    k, s = g.ar[a]
    f = rnd.choice(["sum", "max", "min"] + (["mean"] if k == "f" else []))
    e = g.arr(k, s, 1)
    ax = [] if rnd.random() < 0.5 else [rnd.randrange(len(s))]
    body = []
    if ax == [] or len(s) == 1:
        g.sc["r"] = k
        body.append(dict(t="asg", x="r", e=F(f, e, axis=ax, keep=False)))
        body.append(dict(t="ret", es=[g.scalar(k, 2), V("r")]))
    else:
        keep = rnd.random() < 0.3
        body.append(dict(t="asg", x="r", e=F(f, e, axis=ax, keep=keep)))
        body.append(dict(t="ret", es=[V("r")]))
    return prog(g, ps, body)


def linalg(rnd):
    g, ps = start(rnd, rnd.choice(["ABuv", "Auv", "I", "AB"]), "nx", ("linalg",))
    return arrays(g, ps, rnd)


def casts(rnd):
    g, ps = start(rnd, rnd.choice(["AIv", "AIuw"]), "nx", ("cast", "where"))
    return arrays(g, ps, rnd)


def calls(rnd):
    """Helper functions and constants of the module."""
    g, ps = start(rnd, rnd.choice(["u", "A", "w", ""]), "nxy")
    gl = {"K1": rnd.choice([2, 3, 5]), "K2": rnd.choice([0.5, 1.5, 2.0])}
    for i in range(rnd.randint(1, 2)):
        h = Gen(rnd)
        kinds = [rnd.choice("if") for _ in range(rnd.randint(1, 2))]
        # the names are those of the caller on purpose
        names = rnd.sample(["x", "n", "y", "a"], len(kinds))
        for n, k in zip(names, kinds):
            h.sc[n] = k
        h.sc.update(K1="i", K2="f")
        lets = []
        for _ in range(rnd.randint(0, 2)):
            k = rnd.choice("if")
            z = rnd.choice(["s1", "y", "t", "x"])
            if z in h.sc and h.sc[z] != k:
                continue
            lets.append(dict(x=z, e=h.scalar(k, 1)))
            h.sc[z] = k
        k = rnd.choice("if")
        g.fns["h%d" % i] = dict(ps=names, kinds=kinds, lets=lets, e=h.scalar(k, 2), kind=k)
    g.sc.update(K1="i", K2="f")
    g.fixed |= {"K1", "K2"}
    body = []
    for n, f in sorted(g.fns.items()):
        z = g.new("s")
        body.append(dict(t="asg", x=z, e=F("user", *[g.scalar(k, 1) for k in f["kinds"]], name=n)))
        g.sc[z] = f["kind"]
    for d in ("N", "M"):
        g.dimsrc.setdefault(d, C(2))
    body += [g.stmt(1) for _ in range(rnd.randint(1, 2))]
    return prog(g, ps, body + [dict(t="ret", es=g.results())], globals=gl)


def whiles(rnd):
    """While loops, break and continue."""
    g, ps = start(rnd, rnd.choice(["u", "w", "uw"]), "nx")
    g.sc["c"] = "i"
    g.fixed.add("c")
    g.dimsrc.setdefault("M", C(2))
    body = [dict(t="asg", x="c", e=C(0))]

    def inner():
        ss = [g.stmt(1) for _ in range(rnd.randint(1, 2))]
        q = rnd.random()
        if q < 0.3:
            ss.append(dict(t="if", c=g.cond(1), th=[dict(t="brk")], el=[]))
        elif q < 0.5:
            ss.append(dict(t="if", c=g.cond(1), th=[dict(t="cont")], el=[]))
        ss.append(g.stmt(0))
        return [dict(t="aug", x="c", op="+", e=C(1))] + ss
    w = g.branch(inner)
    body.append(dict(t="while", c=B("<", V("c"), C(rnd.randint(2, 5))), body=w))
    return prog(g, ps, body + [dict(t="ret", es=[V("c")] + g.results())])


FAMILIES = dict(scalars=scalars, loops=loops, elementwise=elementwise, views=views, slices=slices, reductions=reductions, linalg=linalg, casts=casts,
                calls=calls, whiles=whiles)
WEIGHT = dict(scalars=1.2, slices=1.5)


def fixed():
    """Kernels that are run every time; those with a key are known findings."""
    m1 = dict(t="neg", a=C(1))
    u, A = ("u", "f", ("N",)), ("A", "f", ("N", "M"))

    def k(ps, body, key):
        p = dict(ps=[x[0] for x in ps], params=ps, body=body, fns={}, key=key)
        r = random.Random(5)
        return p, [make_input(r, ps, dict(N=4, M=3)), make_input(r, ps, dict(N=3, M=5))]

    def sto(a, ix, e):
        return dict(t="sto", a=V(a), ix=ix, e=e)
    return dict(
        shift=k([u], [sto("u", [sl(C(1))], IX(V("u"), sl(hi=m1)))], "overlapping-slice-store"),
        reverse=k([u], [sto("u", [sl()], IX(V("u"), sl(step=m1)))], "overlapping-slice-store"),
        addshift=k([u], [dict(t="augs", a=V("u"), ix=[sl(C(1))], op="+", e=IX(V("u"), sl(hi=m1)))], "overlapping-slice-store"),
        flip=k([A], [sto("A", [sl(), sl()], F("flip", V("A"), axis=[1]))], "overlapping-slice-store"),
        alias=k([u, ("w", "f", ("N",))], [dict(t="asg", x="T1", e=V("u")), sto("T1", [sl()], B("*", IX(V("w"), at(C(0))), V("u"))), dict(t="ret", es=[V("T1")])],
                "names-of-one-array"),
        kind_sum=k([u], [dict(t="asg", x="s", e=C(0)), dict(t="for", x="i", args=[C(3)], body=[dict(t="aug", x="s", op="+", e=IX(V("u"), at(V("i"))))]),
                         dict(t="ret", es=[V("s")])], "name-changes-kind"),
        kind_set=k([u], [dict(t="asg", x="s", e=C(1)), dict(t="asg", x="s", e=IX(V("u"), at(C(0)))), dict(t="ret", es=[V("s")])], "name-changes-kind"))


# ------------------------------------------------------------------ P02: kernels called again and again
def jit(rnd):
    """A kernel f(A, u, n, x)."""
    c = rnd.random()
    g, ps = start(rnd, "Au", "nx", () if c < 0.35 else ("where",) if c < 0.6 else ("views",) if c < 0.8 else ("reduce",))
    if c < 0.35:
        body = [g.loop(2), g.stmt(1)]
        return prog(g, ps, body + ([dict(t="ret", es=g.results())] if rnd.random() < 0.5 else []))
    return arrays(g, ps, rnd)


def plain(rnd):
    """A kernel f(A, u, n, x) that certainly has loops."""
    g, ps = start(rnd, "Au", "nx")
    i, j, m = V("i"), V("j"), g.dimsrc
    inner = dict(t="sto", a=V("A"), ix=[at(i), at(j)], e=B("+", B("*", IX(V("A"), at(i), at(j)), IX(V("u"), at(i))), rnd.choice([j, V("n"), V("x")])))
    return prog(g, ps, [dict(t="for", x="i", args=[m["N"]], body=[dict(t="for", x="j", args=[m["M"]], body=[inner])])])


def shapes(rnd):
    """A kernel g(A, b, n, k) whose arrays have nothing to do with each other, so any extents will do."""
    g, ps = start(rnd, "", "nk")
    ps = [("A", "f", ("N", "M")), ("b", "f", ("R",))] + ps
    i, j = V("i"), V("j")
    N, M, R = F("shape", V("A"), d=0), F("shape", V("A"), d=1), F("shape", V("b"), d=0)
    x = lambda *own: rnd.choice(list(own) + [V("n"), V("k"), N, M, R, B("-", V("n"), V("k"))])
    nest = dict(t="for", x="i", args=[N], body=[dict(t="for", x="j", args=[M], body=[
        dict(t="sto", a=V("A"), ix=[at(i), at(j)], e=B(rnd.choice("+-"), IX(V("A"), at(i), at(j)), x(i, j)))])])
    line = dict(t="for", x="i", args=[R], body=[dict(t="sto", a=V("b"), ix=[at(i)], e=B(rnd.choice("+*"), IX(V("b"), at(i)), x(i)))])
    whole = dict(t="sto", a=V("b"), ix=[sl()], e=B("+", V("b"), C(1)))
    body = rnd.sample([nest, line, whole], rnd.choice([2, 3]))
    return prog(g, ps, body + [dict(t="ret", es=[x(), B("*", x(), C(3))])])


def members(rnd):
    """A kernel f(u, p) that reads members of an object."""
    g, ps = start(rnd, "u", "")
    i = V("i")
    e = B(rnd.choice("+-*"), IX(V("u"), at(i)), B(rnd.choice("+-*"), V("p.x"), V("p.k")))
    body = [dict(t="for", x="i", args=[g.dimsrc["N"]], body=[dict(t="sto", a=V("u"), ix=[at(i)], e=e)])]
    if rnd.random() < 0.6:
        body.append(dict(t="ret", es=[rnd.choice([V("p.x"), B("+", V("p.k"), C(1)), B("*", V("p.x"), V("p.x"))])]))
    return prog(g, ps + [("p.x", "f", None), ("p.k", "i", None)], body, sig=["u", "p"])


def assigned(p, loops=True):
    """Names the kernel assigns to (with or without the variables of loops)."""
    r = set()

    def go(ss):
        for s in ss:
            if s["t"] in ("asg", "aug") or loops and s["t"] in ("for", "each"):
                r.add(s["x"])
            for k in ("body", "th", "el"):
                go(s.get(k, []))
    go(p["body"])
    return r
