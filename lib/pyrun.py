"""Runs kernels as plain Python and through the compiled frontend.  stdin: one job per line; stdout: one result per line.
A job: {"id", "src", "target", "calls": [input, ...]}; every job has a process of its own."""
import importlib.util, json, os, signal, sys, time, traceback

BIG = 1073741823


def scaled(x):
    import numpy as np
    r = []
    for v in np.asarray(x).ravel().tolist():
        if isinstance(v, bool):
            r.append(16 * int(v))
            continue
        if isinstance(v, int):
            r.append(max(-BIG, min(BIG, 16 * v)))
            continue
        if v != v or abs(v) > 1e7:
            r.append(BIG)
            continue
        w = v * 16
        r.append(int(w) if w == int(w) else BIG)
    return r


def build(inp):
    import numpy as np
    bufs = []
    for h in inp["heap"]:
        a = np.array(h["d"], dtype=np.float64 if h["dt"] == "f" else np.int64 if h["dt"] == "i" else np.bool_)
        if h["dt"] == "f":
            a = a / 16
        if h.get("np"):
            a = a.astype(h["np"])
        bufs.append(a)
    args = []
    for a in inp["args"]:
        if a["k"] == "s":
            v = a["v"]
            args.append(v / 16 if a["dt"] == "f" else bool(v) if a["dt"] == "b" else int(v))
        else:
            b = bufs[a["b"] - 1]
            n = 1
            for d in a["sh"]:
                n *= d
            if n == 0:
                args.append(np.zeros(a["sh"], dtype=b.dtype))
            else:
                args.append(np.lib.stride_tricks.as_strided(b[a["off"]:], shape=a["sh"], strides=[s * b.itemsize for s in a["st"]]))
    return bufs, args


class P:
    pass


class NotRun(Exception):
    pass


def grouped(args, names):
    """Arguments named p.x are members of one object p."""
    r, obj = [], {}
    for a, n in zip(args, names):
        if "." in n:
            o, m = n.split(".")
            if o not in obj:
                obj[o] = P()
                r.append(obj[o])
            setattr(obj[o], m, a)
        else:
            r.append(a)
    return r


def observe(fn, inp):
    import numpy as np
    bufs, args = build(inp)
    r = fn(*(grouped(args, inp["names"]) if "names" in inp else args))
    rs = [] if r is None else list(r) if isinstance(r, tuple) else [r]
    return dict(heap=[scaled(b) for b in bufs], ret=[dict(sh=list(np.shape(x)), d=scaled(x)) for x in rs])


def history(nat, inp, objs, i, runs):
    """One call of a history: which kernel it gets, what is in that kernel's code, and what it computes."""
    opts, env = inp.get("opts", {}), inp.get("env", {})
    os.environ.update(env)
    got = []

    def call(*args):
        c = nat.compile(*args, **opts)
        if not any(o is c for o, _ in objs):
            src, d = "", os.path.dirname(c.lib_path)
            for f in sorted(os.listdir(d)):
                if f.endswith((".cpp", ".h", ".cu")):
                    src += open(os.path.join(d, f), errors="replace").read()
            objs.append((c, ["__daisy_instrumentation_enter" in src, "__daisy_capture_" in src]))
        k = [o is c for o, _ in objs].index(True)
        got.append([k + 1] + objs[k][1])
        if objs[k][1][0] or not runs:
            raise NotRun()     # needs the counter library; or CPython refuses the call, which the compiled code need not notice
        return c(*args) if opts else nat(*args)
    try:
        r = observe(call, inp)
    except NotRun:
        r = None
    for k in env:
        del os.environ[k]
    return ["docc", i, r, got[0]]


def child(job, wd, put):
    sys.path.insert(0, wd)
    name = "k_%s" % job["id"]
    path = os.path.join(wd, name + ".py")
    with open(path, "w") as f:
        f.write(job["src"])
    os.environ["DOCC_TMP"] = os.path.join(wd, "out_%s" % job["id"])
    import warnings
    warnings.simplefilter("ignore")
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    import numpy as np
    np.seterr(all="ignore")
    fine = set()
    for i, inp in enumerate(job["calls"]):
        try:
            put(["py", i, observe(mod.kernel, inp)])
            fine.add(i)
        except Exception as e:
            put(["py", i, None])
    from docc.python import native
    nat = native(target=job.get("target", "none"))(mod.kernel)
    objs = []
    for i, inp in enumerate(job["calls"]):
        if job.get("history"):
            try:
                put(history(nat, inp, objs, i, i in fine))
            except Exception as e:
                put(["error", i, type(e).__name__ + ": " + str(e)[-600:] + " | " + traceback.format_exc()[-700:]])
                break
            continue
        if i not in fine:
            continue
        try:
            put(["docc", i, observe(nat, inp)])
        except Exception as e:
            put(["error", i, type(e).__name__ + ": " + str(e)[-600:] + " | " + traceback.format_exc()[-700:]])
            break
    put(["end"])


def run(job, wd, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setsid()
        o = os.open(os.path.join(wd, "log_%s" % job["id"]), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(o, 1)
        os.dup2(o, 2)
        try:
            child(job, wd, lambda x: os.write(w, (json.dumps(x) + "\n").encode()))
        except BaseException:
            os.write(w, (json.dumps(["error", 0, traceback.format_exc()[-1500:]]) + "\n").encode())
        os._exit(0)
    os.close(w)
    out, t0 = b"", time.time()
    import select
    while True:
        left = limit - (time.time() - t0)
        if left <= 0:
            break
        if not select.select([r], [], [], left)[0]:
            break
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    late = time.time() - t0 >= limit
    if late:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    os.close(r)
    res = dict(id=job["id"], py={}, docc={}, error=None)
    end = False
    for l in out.decode().splitlines():
        try:
            x = json.loads(l)
        except ValueError:
            continue
        if x[0] == "py":
            res["py"][x[1]] = x[2]
        elif x[0] == "docc":
            res["docc"][x[1]] = x[2]
            if len(x) > 3:
                res.setdefault("kernel", {})[x[1]] = x[3]
        elif x[0] == "error":
            res["error"] = x[2]
            end = True
        elif x[0] == "end":
            end = True
    if late:
        res["error"] = "no answer in %d s" % limit
    elif not end:
        res["error"] = "crash: status %d" % st
    import shutil
    shutil.rmtree(os.path.join(wd, "out_%s" % job["id"]), ignore_errors=True)
    return res


if __name__ == "__main__":
    wd = sys.argv[1]
    import numpy, docc.python      # once, before forking
    for line in sys.stdin:
        sys.stdout.write(json.dumps(run(json.loads(line), wd, 60)) + "\n")
        sys.stdout.flush()
