from vlib import *
import http.client, itertools, random, socket, threading

FLAGS = ["-std=c++20", "-g1", "-O1", "-fPIC", "-w", "-I" + repo("rpc/include"), "-I" + repo("sdfg/include")]


def build_harness():
    srcs = [repo("rpc/src/passes/rpc/rpc_context.cpp"), repo("rpc/src/passes/rpc/daisytuner_rpc_context.cpp"),
            repo("rpc/src/util/utils_curl.cpp"), os.path.join(HARNESS, "rpc_harness.cpp")]
    exe = link(compile_many(srcs, FLAGS, "rpc"), os.path.join(BUILD, "bin", "rpc_harness"), ["-lcurl"])
    fo = compile_many([os.path.join(HARNESS, "fault_preload.c")], ["-O1", "-fPIC", "-w"], "cap")
    so = link(fo, os.path.join(BUILD, "bin", "redirect.so"), ["-ldl"], shared=True)
    return exe, so


C = list
S = lambda x: [] if x is None else [C(x)]
K = dict(server=C("https://docc-backend-1080482399950.europe-west1.run.app/docc"), endpoint=C("transfertune"),
         lserver=C("http://localhost:8080/docc"), lendpoint=C("transfertune"), auth=C("Authorization"), hint=C("RPC-Hint"))


def cfg(job=None, access=None, home=None, token=None, session=None, rpcserver=None):
    return dict(job=S(job), access=S(access), home=S(home), token=S(token), session=S(session), rpcserver=S(rpcserver))


def auth_cases(t):
    env = [None, "", "jt", " j t\n"]
    files = [None, "", "tok", "tok\n", " a b \r\n\t ", "x\ny\n\n", "\n"]
    if t:
        files += ["tok\x0b", "t\u00e4k \n", "a" * 5000 + "\n", "\tlead", "one\r\n", "x \n y"]
        env += ["\u00e4", "t\t", "Job x"]
    for j, a, h, f, s, r in itertools.product(env, env, [None, "", "h"], files, files, [None, "", "http://s:1/x"]):
        if a == " j t\n" and j not in (None, ""):
            continue
        yield cfg(j, a, h, f, s, r)


def run_lines(exe, so, wd, lines, timeout=700):
    n = JOBS
    out = [None] * len(lines)

    def go(i):
        d = os.path.join(wd, "x%d" % i)
        os.makedirs(d, exist_ok=True)
        e = dict(os.environ, LD_PRELOAD=so, VRF_REDIRECT="/var/lib/daisytuner/session=" + os.path.join(d, "session"))
        for v in ("SDFG_RPC_CONFIG", "RPC_HEADER", "http_proxy", "all_proxy"):
            e.pop(v, None)
        rc, o, err = run_harness([exe, d], timeout, env=e, stdin="\n".join(json.dumps(x) for x in lines[i::n]) + "\n")
        if rc != 0:
            raise CheckError("rpc harness failed rc=%s %s" % (rc, err[-1500:]))
        rs = [json.loads(x) for x in o.splitlines()]
        if len(rs) != len(lines[i::n]):
            raise CheckError("rpc harness lost records")
        for k, x in zip(range(i, len(lines), n), rs):
            out[k] = x
        shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(go, range(n)))
    return out


def validate(rep, wd, recs, inv):
    trace = os.path.join(wd, "trace.ndjson")
    with open(trace, "w") as fh:
        for r in recs:
            fh.write(json.dumps(r) + "\n")
    r = tlc_checked("RpcTrace", "SPECIFICATION TSpec\nINVARIANTS %s\n" % inv, os.path.join(wd, "val"),
                    env={"TRACE": trace}, timeout=780)
    rep.tlc(r)
    rep.add("traces_validated_against_impl", len(recs))
    if r.violated:
        m = re.findall(r"^(?:/\\ )?r = (\d+)", r.out, re.M)
        rec = recs[int(m[-1]) - 1] if m else None
        rep.violation("%s violated: %s" % (inv, json.dumps(rec)[:1500]), rec)
    elif r.distinct != len(recs):
        raise CheckError("examined %d of %d records" % (r.distinct, len(recs)))


def check_auth():
    rep = Report("N01", "model_checking")
    exe, so = build_harness()
    wd = scratch("N01")
    cs = list(auth_cases(rep.thorough))
    lines = [dict(kind="auth", cfg=c, how=i % 2) for i, c in enumerate(cs)]
    # the same lookups again in another order: what was configured before must not matter
    random.Random(rep.seed).shuffle(lines)
    recs = [dict(o, cfg=l["cfg"], K=K) for l, o in zip(lines, run_lines(exe, so, wd, lines))]
    validate(rep, wd, recs, "AuthOK")
    rep.coverage["configurations"] = len(lines)
    for k in (0, 1, 2):
        rep.sample(lines[k])
    rep.assumptions.append("files that exist are readable regular files; the session file's path is redirected by an interposer")
    return rep.finish()


def step_alphabet():
    F = lambda server=None, endpoint=None, headers=(), ok=True: [dict(ok=ok, server=S(server), endpoint=S(endpoint),
                                                                  headers=[[C(a), C(b)] for a, b in headers])]
    docs = [(None, []), ("{}", F()), ('{"SERVER": "http://a", "ENDPOINT": "e"}', F("http://a", "e")),
            ('{"SERVER": ""}', F("")), ('{"ENDPOINT": "x/y"}', F(None, "x/y")),
            ('{"HEADERS": {"Authorization": "Token f", "H": "1"}}', F(headers=[("Authorization", "Token f"), ("H", "1")])),
            ('{"SERVER": 5, "ENDPOINT": null, "HEADERS": {"H": 3, "G": "2", "N": null}}', F(headers=[("G", "2")])),
            ('{"HEADERS": ["x"], "SERVER": "s2"}', F("s2")), ('{"server": "low", "Endpoint": "low", "X": {}}', F()),
            ('{"SERVER": "tru', F(ok=False)), ('', F(ok=False))]
    A = [dict(op="local")]
    for txt, f in docs:
        A.append(dict(op="file", file=f, **({} if txt is None else {"text": txt})))
    for txt, f in (docs[0], docs[2], docs[5]):
        A.append(dict(op="env", var=True, file=f, **({} if txt is None else {"text": txt})))
    A.append(dict(op="env", var=True, file=docs[4][1], text=docs[4][0], name="OTHER_CONFIG"))
    A += [dict(op="env", var=False, file=[]), dict(op="env", var=False, file=[], empty=True)]
    for v in (None, "", "H:v", "plain hint", "A:b:c", ":v", "k:", "Authorization: x"):
        A.append(dict(op="henv", val=S(v)))
    A.append(dict(op="henv", val=S("H:o"), envname="OTHER_HEADER"))
    for n, v in (("H", "9"), ("h", "8"), ("Authorization", "mine"), ("", ""), ("RPC-Hint", "r")):
        A.append(dict(op="header", name=C(n), value=C(v)))
    for c in (cfg(), cfg(job="j"), cfg(access="t", rpcserver="http://o"), cfg(home="h", token="f\n"), cfg(rpcserver="http://o"),
              cfg(session="s ", rpcserver="")):
        A.append(dict(op="docc", cfg=c))
    return A


def check_steps():
    rep = Report("N02", "model_checking")
    exe, so = build_harness()
    wd = scratch("N02")
    A = step_alphabet()
    tab = os.path.join(wd, "tab.ndjson")
    with open(tab, "w") as fh:
        fh.write(json.dumps(dict(K=K, steps=A)) + "\n")

    def gen(L, sim=None):
        ex = ["-simulate", "num=%d" % sim, "-depth", str(L + 1), "-seed", str(rep.seed + 5)] if sim else []
        r = tlc_checked("RpcGen", "SPECIFICATION Spec\nINVARIANTS Dump OneValue\n%sCONSTANT L = %d\n" %
                        ("" if sim else "PROPERTY Frame\n", L), os.path.join(wd, "gen%d" % L),
                        env={"TAB": tab}, extra=ex, workers=1 if sim else None)
        if r.violated:
            raise CheckError("the configuration specification violates its own properties\n" + r.out[-3000:])
        rep.tlc(r)
        return {json.loads(l.strip())[2:] for l in r.out.splitlines() if l.strip().startswith('"@@')}
    hs = sorted(gen(2)) + sorted(gen(9, 3000 if rep.thorough else 500))
    hs += random.Random(rep.seed).sample(sorted(gen(3)), 40000 if rep.thorough else 9000)
    lines = [dict(kind="steps", steps=[A[i - 1] for i in json.loads(h)], print=k % 4 == 0) for k, h in enumerate(hs)]
    recs = [dict(o, steps=l["steps"], K=K) for l, o in zip(lines, run_lines(exe, so, wd, lines))]
    validate(rep, wd, recs, "StepsOK")
    rep.coverage["step_sequences"] = len(lines)
    for k in (0, len(hs) // 2, len(hs) - 1):
        rep.sample([A[i - 1] for i in json.loads(hs[k])])
    return rep.finish()


# ------------------------------------------------------------------ requests
class Server(threading.Thread):
    """Answers the request for path /<n> as case n says and keeps what it received."""

    def __init__(self, cases):
        super().__init__(daemon=True)
        self.cases, self.got, self.lock = cases, {}, threading.Lock()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]

    def run(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            f = c.makefile("rb")
            line = f.readline().decode("latin-1").split()
            if len(line) < 2:
                return
            hs, n = [], 0
            while True:
                h = f.readline().decode("utf-8", "replace").rstrip("\r\n")
                if not h:
                    break
                hs.append(h)
                if h.lower().startswith("content-length:"):
                    n = int(h.split(":")[1])
                if h.lower().startswith("expect:"):
                    c.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
            k = int(line[1].split("/")[1])
            x = self.cases[k]
            if x["fault"] == "early":
                c.sendall(x["raw"])
                return
            body = f.read(n)
            with self.lock:
                self.got.setdefault(k, []).append(dict(method=line[0], path=line[1], headers=hs, payload=body.decode("utf-8", "replace")))
            raw = x["raw"]
            if x.get("split"):
                for i in range(0, len(raw), x["split"]):
                    c.sendall(raw[i:i + x["split"]])
            else:
                c.sendall(raw)
            if x["fault"] == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\0\0\0\0\0\0\0")
        except OSError:
            pass
        finally:
            try:
                c.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            c.close()


def response(status, body, how="len"):
    b = body.encode()
    head = "HTTP/1.1 %d Thing\r\nServer: x\r\n" % status
    if how == "len":
        return (head + "Content-Length: %d\r\nConnection: close\r\n\r\n" % len(b)).encode() + b
    if how == "close":
        return (head + "Connection: close\r\n\r\n").encode() + b
    out = (head + "Transfer-Encoding: chunked\r\n\r\n").encode()
    for i in range(0, len(b), 7):
        out += b"%x\r\n" % len(b[i:i + 7]) + b[i:i + 7] + b"\r\n"
    return out + b"0\r\n\r\n"


def request_cases(rnd, t):
    payloads = ["{}", '{"sdfg": {"name": "x"}, "category": "server"}', '{"q": "\\u0000\\"&=%+ ü"}', "[" + "1," * 4000 + "1]",
                "@/etc/hostname", "a=b&c=d", " " * 3, "{\n\t\"a\": 1\r\n}"]
    heads = [[], ["Content-Type: application/json"], ["Content-Type: application/json", "Authorization: Token t:1 =", "RPC-Hint: h"],
             ["X-A: 1", "X-B: two words"]]
    bodies = ["", "{}", '{"local_replay": {"sequence": []}}', "not json", "x" * 70000, "ü\n\r\n0\r\n\r\n", '{"error": "e"}']
    cases = []

    def add(fault, raw, complete, status, body, reached=True, **k):
        p = rnd.choice(payloads)
        cases.append(dict(fault=fault, raw=raw, complete=complete, status=status, body=body, reached=reached,
                          payload=p, headers=rnd.choice(heads), **k))
    for st in list(range(200, 600)):
        if st in (204, 304):
            add("none", ("HTTP/1.1 %d N\r\nConnection: close\r\n\r\n" % st).encode(), True, st, "")
            continue
        for how in ("len", "chunked", "close") if t or st in (200, 201, 203, 205, 401, 403, 500) else (rnd.choice(["len", "chunked", "close"]),):
            if st == 205 and how != "len":
                continue
            b = "" if st == 205 else rnd.choice(bodies)
            add("none", response(st, b, how), True, st, b, split=rnd.choice([0, 0, 1000]))
    for b in bodies:
        for how in ("len", "chunked", "close"):
            for st in (200, 202):
                add("none", response(st, b, how), True, st, b, split=rnd.choice([0, 1, 3, 4096]) if len(b) < 1000 else 4096)
    for st in (200, 201, 401, 500):
        full = response(st, '{"local_replay": {"sequence": [1, 2, 3]}}')
        # a header cut short is accepted by curl itself (as a response without a body); it is not claimed
        end = lambda raw: raw.index(b"\r\n\r\n") + 4
        for cut in sorted(set([0] + list(range(end(full), len(full), 3 if t else 7)) + [len(full) - 1])):
            add("none", full[:cut], False, 0, "")
        ch = response(st, '{"local_replay": {"sequence": [1, 2, 3]}}', "chunked")
        for cut in sorted(set([0] + list(range(end(ch), len(ch), 3 if t else 11)) + [len(ch) - 6, len(ch) - 2])):
            add("none", ch[:cut], cut >= len(ch), 0, "")
        add("reset", full[:-3], False, 0, "")
    add("early", b"", False, 0, "", reached=False)
    add("early", b"garbage", False, 0, "", reached=False)
    add("none", b"\x00\x01\x02\x03", False, 0, "")
    add("none", b"NOT-HTTP 200 OK\r\n\r\n", False, 0, "")
    add("none", b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nshort", False, 0, "")
    add("none", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\nxx", False, 0, "")
    add("refused", b"", False, 0, "", reached=False)
    add("badurl", b"", False, 0, "", reached=False)
    for i, c in enumerate(cases):
        c["path"] = "/%d/docc/transfertune" % i
    return cases


def check_requests():
    rep = Report("N03", "fault_enumeration")
    exe, so = build_harness()
    wd = scratch("N03")
    rnd = random.Random(rep.seed * 3 + 1)
    cases = request_cases(rnd, rep.thorough)
    srv = Server(cases)
    srv.start()
    dead = socket.socket()
    dead.bind(("127.0.0.1", 0))   # bound but not listening: connections are refused
    lines = []
    for c in cases:
        port = dead.getsockname()[1] if c["fault"] == "refused" else srv.port
        url = "http://127.0.0.1:%d%s" % (port, c["path"])
        if c["fault"] == "badurl":
            url = "nosuch://x"
        lines.append(dict(kind="post", url=url, payload=c["payload"], headers=c["headers"]))
    outs = run_lines(exe, so, wd, lines)
    recs = []
    h = lambda b: hashlib.sha256(b.encode("utf-8", "replace")).hexdigest()[:16] if len(b) > 40 else b
    for i, (c, o) in enumerate(zip(cases, outs)):
        m = o["message"]
        cls = "ok" if m == "" and o["curl"] == 0 else "auth" if "authentication" in m.lower() or "auth" in m.lower() else "error"
        if m == "" and o["curl"] != 0:
            cls = "silent"
        recs.append(dict(case=dict(complete=c["complete"], status=c["status"], body=h(c["body"]), reached=c["reached"], path=c["path"],
                                   payload=h(c["payload"]), headers=c["headers"], fault=c["fault"]),
                         out={"class": cls, "message": "" if m == "" else "x", "status": o["status"], "body": h(o["body"])},
                         got=[dict(g, payload=h(g["payload"])) for g in srv.got.get(i, [])]))
    validate(rep, wd, recs, "RequestOK")
    rep.coverage["evaluations"] = len(recs)
    rep.coverage["distinct_nontrivial"] = sum(1 for c in cases if not (c["complete"] and c["status"] == 200))
    for k in (0, 405, len(recs) - 1):
        rep.sample(recs[min(k, len(recs) - 1)])
    rep.assumptions.append("the server is scripted on the loopback interface; TLS and name resolution are curl's")
    srv.sock.close()
    return rep.finish()
