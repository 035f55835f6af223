"""Random kernels in the Python/NumPy subset: syntax trees for Py.tla and the same program as Python source."""
import random


# ------------------------------------------------------------------ trees
def C(v, dt=None):
    dt = dt or ("b" if isinstance(v, bool) else "f" if isinstance(v, float) else "i")
    return dict(t="c", dt=dt, v=int(v * 16) if dt == "f" else int(v))


def V(x):
    return dict(t="v", x=x)


def B(op, a, b):
    return dict(t="bin", op=op, a=a, b=b)


NONE = dict(t="none")


def at(e):
    return dict(at=True, v=e)


def sl(lo=NONE, hi=NONE, step=NONE):
    return dict(at=False, lo=lo, hi=hi, step=step)


def IX(a, *ix):
    return dict(t="idx", a=a, ix=list(ix))


def F(f, *args, **kw):
    return dict(t="call", f=f, args=list(args), **kw)


DT = {"i": "np.int64", "f": "np.float64", "b": "np.bool_"}


def src_ix(ix):
    r = []
    for i in ix:
        if i["at"]:
            r.append(src(i["v"]))
        else:
            p = [("" if i[k]["t"] == "none" else src(i[k])) for k in ("lo", "hi", "step")]
            r.append(p[0] + ":" + p[1] + (":" + p[2] if p[2] else ""))
    return ", ".join(r)


def src(e):
    t = e["t"]
    if t == "c":
        if e["dt"] == "f":
            return repr(e["v"] / 16)
        return repr(bool(e["v"])) if e["dt"] == "b" else repr(e["v"])
    if t == "v":
        return e.get("s") or e["x"]
    if t == "bin":
        return "(%s %s %s)" % (src(e["a"]), e["op"], src(e["b"]))
    if t in ("and", "or"):
        return "(%s %s %s)" % (src(e["a"]), t, src(e["b"]))
    if t == "not":
        return "(not %s)" % src(e["a"])
    if t == "neg":
        return "(-%s)" % src(e["a"])
    if t == "idx":
        return "%s[%s]" % (src(e["a"]), src_ix(e["ix"]))
    if t == "call":
        f, a = e["f"], [src(x) for x in e["args"]]
        if f == "user":
            return "%s(%s)" % (e["name"], ", ".join(a))
        if f in ("zeros", "ones"):
            return "np.%s((%s), dtype=%s)" % (f, a[0] + "," if len(a) == 1 else ", ".join(a), DT[e["dt"]])
        if f == "eye":
            return "np.eye(%s, dtype=%s)" % (a[0], DT[e["dt"]])
        if f in ("minp", "maxp"):
            return "%s(%s)" % (f[:3], ", ".join(a))
        if f in ("int", "float", "bool", "abs"):
            return "%s(%s)" % (f, a[0])
        if f == "npabs":
            return "np.abs(%s)" % a[0]
        if f in ("sum", "max", "min", "mean"):
            kw = (", axis=%d" % e["axis"][0] if e["axis"] else "") + (", keepdims=True" if e["keep"] else "")
            return "np.%s(%s%s)" % (f, a[0], kw)
        if f == "outer":
            if e.get("np"):
                return "np.%s.outer(%s)" % (e["np"], ", ".join(a))
            return "np.outer(%s)" % ", ".join(a)
        if f == "transpose":
            if e.get("T"):
                return "%s.T" % a[0]
            return "np.transpose(%s%s)" % (a[0], ", (%s)" % ", ".join(map(str, e["perm"])) if e["perm"] else "")
        if f == "flip":
            return "np.flip(%s%s)" % (a[0], ", axis=%d" % e["axis"][0] if e["axis"] else "")
        if f == "reshape":
            return "np.reshape(%s, (%s))" % (a[0], a[1] + "," if len(a) == 2 else ", ".join(a[1:]))
        if f == "astype":
            return "%s.astype(%s)" % (a[0], DT[e["dt"]])
        if f == "copy":
            return "%s.copy()" % a[0]
        if f == "shape":
            return "%s.shape[%d]" % (a[0], e["d"])
        return "np.%s(%s)" % (f, ", ".join(a))
    raise ValueError(t)


def src_stmts(ss, ind):
    r, p = [], "    " * ind
    if not ss:
        return [p + "pass"]
    for s in ss:
        t = s["t"]
        if t == "asg":
            r.append("%s%s = %s" % (p, s["x"], src(s["e"])))
        elif t == "tup":
            r.append("%s%s = %s" % (p, ", ".join(s["xs"]), ", ".join(src(e) for e in s["es"])))
        elif t == "sto":
            r.append("%s%s[%s] = %s" % (p, src(s["a"]), src_ix(s["ix"]), src(s["e"])))
        elif t == "aug":
            r.append("%s%s %s= %s" % (p, s["x"], s["op"], src(s["e"])))
        elif t == "augs":
            r.append("%s%s[%s] %s= %s" % (p, src(s["a"]), src_ix(s["ix"]), s["op"], src(s["e"])))
        elif t == "if":
            r.append("%sif %s:" % (p, src(s["c"])))
            r += src_stmts(s["th"], ind + 1)
            if s["el"]:
                r.append(p + "else:")
                r += src_stmts(s["el"], ind + 1)
        elif t == "while":
            r.append("%swhile %s:" % (p, src(s["c"])))
            r += src_stmts(s["body"], ind + 1)
        elif t == "for":
            r.append("%sfor %s in range(%s):" % (p, s["x"], ", ".join(src(a) for a in s["args"])))
            r += src_stmts(s["body"], ind + 1)
        elif t == "each":
            r.append("%sfor %s in %s:" % (p, s["x"], src(s["e"])))
            r += src_stmts(s["body"], ind + 1)
        elif t == "brk":
            r.append(p + "break")
        elif t == "cont":
            r.append(p + "continue")
        elif t == "ret":
            r.append(p + "return " + ", ".join(src(e) for e in s["es"]))
        elif t == "pass":
            r.append(p + "pass")
    return r


def source(prog):
    r = ["import numpy as np"]
    for k, v in prog.get("globals", {}).items():
        r.append("%s = %r" % (k, v))
    for n, d in prog["fns"].items():
        r.append("def %s(%s):" % (n, ", ".join(d["ps"])))
        for l in d["lets"]:
            r.append("    %s = %s" % (l["x"], src(l["e"])))
        r.append("    return " + src(d["e"]))
    r.append("def kernel(%s):" % ", ".join(prog.get("sig", prog["ps"])))
    r += src_stmts(prog["body"], 1)
    return "\n".join(r) + "\n"


def model(prog):
    """The tree Py.tla executes."""
    k = {x: dict(k="s", dt="f" if isinstance(v, float) else "i", v=int(v * 16) if isinstance(v, float) else v)
         for x, v in prog.get("globals", {}).items()}
    return dict(ps=prog["ps"], body=prog["body"], fns=dict(prog["fns"], _=dict(ps=[], lets=[], e=NONE)), consts=dict(k, _=dict(k="u")))


# ------------------------------------------------------------------ inputs
def value(rnd, dt):
    if dt == "f":
        return rnd.choice([0, 4, 8, -8, 16, 24, -16, 32, 40, -40, 48, 64, -60])
    if dt == "b":
        return rnd.randint(0, 1)
    return rnd.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, 7])


def c_str(sh):
    st, n = [], 1
    for d in reversed(sh):
        st.insert(0, n)
        n *= d
    return st


def make_input(rnd, params, dims, layout="C", scalars={}, types={}):
    """params: (name, dt, shape of dimension names or None for a scalar[, range]); layout: one for all or by name"""
    heap, args, lay = [], [], layout
    for p in params:
        name, dt, sh = p[:3]
        dt = types.get(name, dt)
        layout = lay if isinstance(lay, str) else lay.get(name, "C")
        if name in scalars:
            args.append(dict(k="s", dt=dt, v=scalars[name]))
            continue
        if sh is None:
            v = rnd.randint(*p[3]) if len(p) > 3 else value(rnd, dt)
            args.append(dict(k="s", dt=dt, v=v))
            continue
        s = [dims[d] if isinstance(d, str) else d for d in sh]
        n = 1
        for d in s:
            n *= d
        if layout == "F" and len(s) > 1:
            st, tot, off = list(reversed(c_str(list(reversed(s))))), n, 0
        elif layout == "step":                        # every other element of a larger buffer, from its second on
            st, off = [x * 2 for x in c_str(s)], 1
            tot = 2 * n + 1
        elif layout == "neg":
            st = [-x for x in c_str(s)]
            tot, off = n, n - 1
        else:
            st, tot, off = c_str(s), n, 0
        if len(p) > 3:
            d = [rnd.randint(*p[3]) for _ in range(tot)]
        else:
            d = [value(rnd, dt) for _ in range(tot)]
        heap.append(dict(dt=dt, d=d))
        args.append(dict(k="a", b=len(heap), off=off, sh=s, st=st))
    return dict(args=args, heap=heap)
