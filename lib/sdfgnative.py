"""Child process: loads a shared object and calls functions on given inputs.  Job on stdin, results on stdout."""
import ctypes, json, math, os, signal, sys
CT = dict(i64=ctypes.c_int64, u64=ctypes.c_uint64, i32=ctypes.c_int32, u32=ctypes.c_uint32, i16=ctypes.c_int16, u16=ctypes.c_uint16,
          i8=ctypes.c_int8, u8=ctypes.c_uint8, bool=ctypes.c_bool, f64=ctypes.c_double, f32=ctypes.c_float)
ODD = 2147483646
NAN = 2147483645
GUARD = 64


def enc(x):
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x) or x != int(x):
            return ODD
        x = int(x)
    x = int(x)
    return x if abs(x) < 1073741824 else ODD


def call(lib, job, inp):
    fn = getattr(lib, job["fn"])
    objs, addr = [], {}
    sig = {n: (t, p) for n, t, p in job["args"]}
    types = {}
    for n, t, p in job["args"]:
        if p:
            types[inp["v"][n] // 1000000] = t
    for k, o in enumerate(inp["h"]):
        t = types[k + 1]
        n = len(o["d"])
        a = (CT[t] * (n + 2 * GUARD))()
        for i, x in enumerate(o["d"]):
            a[GUARD + i] = float("nan") if x == NAN and t[0] == "f" else x
        objs.append((a, n))
        addr[k + 1] = ctypes.addressof(a) + GUARD * ctypes.sizeof(CT[t])
    args = []
    for n, t, p in job["args"]:
        v = inp["v"][n]
        if p:
            args.append(ctypes.c_void_p(addr[v // 1000000] + v % 1000000 - 500000))
        else:
            args.append(CT[t](v))
    fn.restype = CT[job["ret"]] if job.get("ret") and job["ret"] in CT else None
    r = fn(*args)
    for a, n in objs:
        if any(a[i] for i in range(GUARD)) or any(a[GUARD + n + i] for i in range(GUARD)):
            return dict(out="outside", h=[], ret=0)
    return dict(out="done", h=[[enc(a[GUARD + i]) for i in range(n)] for a, n in objs], ret=enc(r) if r is not None else 0)


def main():
    jobs = json.load(sys.stdin)
    lib = ctypes.CDLL(sys.argv[1])
    res = []
    for job in jobs:
        got = []
        for inp in job["inputs"]:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                signal.alarm(3)
                try:
                    out = json.dumps(call(lib, job, inp))
                except Exception as e:
                    out = json.dumps(dict(out="error " + str(e), h=[], ret=0))
                os.write(wr, out.encode())
                os._exit(0)
            os.close(wr)
            s = b""
            while True:
                b = os.read(rd, 65536)
                if not b:
                    break
                s += b
            os.close(rd)
            os.waitpid(pid, 0)
            got.append(json.loads(s) if s else dict(out="crash", h=[], ret=0))
        res.append(got)
    json.dump(res, sys.stdout)


main()
