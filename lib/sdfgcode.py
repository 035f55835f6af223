"""Generated code: compiled, run in a child process, and its results judged by TLC (SdfgRun.tla)."""
import time
from sdfgprops import *
from sdfggen import prep
from sdfgcodefam import *
import ctypes, resource, signal

CT = dict(i64=ctypes.c_int64, u64=ctypes.c_uint64, i32=ctypes.c_int32, u32=ctypes.c_uint32, i16=ctypes.c_int16, u16=ctypes.c_uint16,
          i8=ctypes.c_int8, u8=ctypes.c_uint8, bool=ctypes.c_bool, f64=ctypes.c_double, f32=ctypes.c_float)
ODD = 2147483646     # a value no run of the specification has
CFLAGS = {"c": ["clang", "-x", "c", "-std=c11"], "cpp": ["clang++", "-x", "c++", "-std=c++17"]}
COMMON = ["-w", "-fPIC", "-fno-strict-aliasing", "-fwrapv", "-ffp-contract=off", "-I" + repo("rtl/include"), "-I" + os.path.join(VERIF, "shim", "blas")]
RUNNER = os.path.join(VERIF, "lib", "sdfgnative.py")


def arg_types(prog):
    r = []
    for c in prog["containers"]:
        if c.get("arg"):
            t = c["t"]
            if isinstance(t, str) and t != "void*":
                r.append((c["name"], t, False))
            else:
                el = t
                while isinstance(el, dict):
                    el = el.get("ptr") or el.get("arr") or el.get("el")
                r.append((c["name"], el, True))
    return r


def compile_batch(wd, name, lang, srcs):
    """srcs: list of (index, pieces); one translation unit.  Returns the shared object or None."""
    f = os.path.join(wd, name + "." + lang)
    with open(f, "w") as fh:
        fh.write(srcs[0][1]["inc"] + "\n")
        for _, s in srcs:
            fh.write(s["cls"] + "\n" + s["glob"] + "\n" + s["body"] + "\n")
    so = os.path.join(wd, name + ".so")
    r = subprocess.run(CFLAGS[lang] + ["-O0" if lang == "c" else "-O1"] + COMMON + ["-shared", "-o", so, f, "-lm"], capture_output=True, text=True)
    return (so, "") if r.returncode == 0 else (None, r.stderr[:1500])


def native(rep, items, lang, per=40):
    """items have src and sig; fills got (one record per input), or cerr when the code does not compile."""
    wd = scratch("native")
    plain = [k for k, x in enumerate(items) if not x["src"]["cls"].strip() and not x["src"]["glob"].strip() and len({x["src"]["inc"]}) == 1]
    own = [k for k in range(len(items)) if k not in set(plain)]
    batches = [plain[i:i + per] for i in range(0, len(plain), per)] + [[k] for k in own]

    def one(bi):
        ks = batches[bi]
        so, err = compile_batch(wd, "b%d" % bi, lang, [(k, items[k]["src"]) for k in ks])
        parts = [(so, ks)] if so else []
        if not so:
            for k in ks:
                so, err = compile_batch(wd, "b%d_%d" % (bi, k), lang, [(k, items[k]["src"])])
                if so:
                    parts.append((so, [k]))
                else:
                    items[k]["cerr"] = err
        for so, ks in parts:
            job = [dict(fn=items[k]["prog"]["name"], args=items[k]["sig"], ret=items[k]["prog"].get("ret"), globals=items[k].get("globals", {}), inputs=items[k]["inputs"]) for k in ks]
            r = subprocess.run([sys.executable, RUNNER, so], input=json.dumps(job), capture_output=True, text=True, timeout=700)
            if r.returncode:
                raise CheckError("runner: " + r.stderr[-1500:])
            for k, g in zip(ks, json.loads(r.stdout)):
                items[k]["got"] = g
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, range(len(batches))))
    shutil.rmtree(wd, ignore_errors=True)


def judge(rep, cases, meta, timeout=800, chunk=3000):
    bad, ran, skipped = [], 0, 0
    for i in range(0, len(cases), chunk):
        wd = scratch("run")
        f = os.path.join(wd, "cases.json")
        with open(f, "w") as fh:
            json.dump(cases[i:i + chunk], fh)
        r = tlc_checked("SdfgRun", "SPECIFICATION Spec\nCONSTANT Hash1 <- NoValue\n", wd, env={"CASES": f}, heap="12g", timeout=timeout)
        if r.violated:
            raise CheckError("TLC stopped:\n" + r.out[-4000:])
        rep.tlc(r)
        ran += len(set(parse_tuples(r.out, "RUN")))
        skipped += len(set(parse_tuples(r.out, "SKIP")))
        bad += sorted(set(parse_tuples(r.out, "BAD")))
        shutil.rmtree(wd, ignore_errors=True)
    want = sum(len(c["inputs"]) for c in cases)
    if ran + skipped != want:
        raise CheckError("TLC judged %d of %d runs\n%s" % (ran + skipped, want, r.out[-3000:]))
    rep.add("runs_compared", ran)
    rep.add("runs_undefined", skipped)
    by = {c["id"]: c for c in cases}
    seen = {}
    for cid, inp in bad:
        seen.setdefault(cid, []).append(inp)
    for cid, inps in seen.items():
        c, m = by[cid], meta[cid]
        rep.violation("%s: the compiled code gives another result on inputs %s" % (m["what"], [c["inputs"][k - 1]["v"] for k in inps][:3]),
                      dict(meta=m, inputs=[c["inputs"][k - 1] for k in inps], got=[c["got"][k - 1] for k in inps]), key=m.get("key"))
    return bad


def run_generated(rep, exe, items, lang):
    """items: id, prog, acts (before generating), inputs, what."""
    for k, x in enumerate(items):
        x["prog"] = dict(x["prog"], name="f_%d" % k)
    rs = run_lines(exe, [dict(id=x["id"], prog=x["prog"], acts=x["acts"] + [dict(a="gen", lang=lang)]) for x in items])
    todo = []
    for x, r in zip(items, rs):
        rep.add("programs", 1)
        if "crash" in r or "error" in r:
            rep.violation("%s: %s" % (x["what"], r.get("crash") or r.get("error")), dict(prog=x["prog"], acts=x["acts"], result=str(r)[:2000]), key=x.get("key"))
        elif "after" not in r:
            rep.add("unsupported", 1)
        else:
            x["src"], x["sig"], x["after"] = r["steps"][-1]["src"], arg_types(x["prog"]), r["after"]
            todo.append(x)
    native(rep, todo, lang)
    cases, meta = [], {}
    for x in todo:
        m = dict(what=x["what"], prog=x["prog"], acts=x["acts"], src=x["src"]["body"], key=x.get("key"))
        if "cerr" in x:
            rep.violation("%s: the generated code does not compile: %s" % (x["what"], x["cerr"].split("\n")[0]), dict(m, err=x["cerr"]), key=x.get("key"))
            continue
        meta[str(x["id"])] = m
        cases.append(dict(id=str(x["id"]), P=prep(x["after"]), inputs=x["inputs"], got=x["got"], fuel=900, ret="ret" in x["prog"]))
    return judge(rep, cases, meta)


def known_cases(lang):
    """Defects of the generated code that are pinned by unit tests or relied on elsewhere, one program each."""
    r = []
    if lang == "c":
        p = dict(name="f", containers=[dict(name="P", t={"ptr": "u8"}, arg=True), dict(name="Q", t={"ptr": "i64"}, arg=True)],
                 root=[block("assign", [acc("P", [0], {"ptr": "u8"})], acc("Q", [0], {"ptr": "i64"}))])
        i = dict(v=dict(P=1500000, Q=2500000), h=[dict(b=2, sz=1, fill=0, d=[200, 0]), dict(b=8, sz=8, fill=0, d=[0])])
        r.append(dict(id="u8", prog=p, acts=[], inputs=[i], what="an unsigned 8-bit value above 127 in generated C code", key="c-u8-is-char"))
    p = dict(name="f", containers=[dict(name="P", t=PF, arg=True), dict(name="Q", t={"ptr": "i64"}, arg=True)],
             root=[block("fp_one", [acc("P", [0], PF), acc("P", [1], PF)], acc("Q", [0], {"ptr": "i64"}))])
    i = dict(v=dict(P=1500000, Q=2500000), h=[dict(b=16, sz=8, fill=0, d=[NAN, 1]), dict(b=8, sz=8, fill=0, d=[0])])
    r.append(dict(id="one", prog=p, acts=[], inputs=[i], what="fp_one with a NaN operand in generated %s code" % lang, key="fp-one-nan"))
    return r


def s05():
    rep = Report("S05", "model_checking")
    exe = build_harness()
    t = rep.thorough
    for lang in ("c", "cpp"):
        items = known_cases(lang)
        for fam in sorted(CODE_FAMILIES):
            for i in range(700 if t else 110):
                rng = random.Random("code/%s/%d/%d" % (fam, rep.seed, i))
                p, ins = code_program(fam, rng, lang)
                items.append(dict(id="%s%d" % (fam, i), prog=p, acts=[], inputs=ins, what="the %s code of a generated %s program" % (lang, fam)))
        # programs as the passes and transformations leave them
        rest = xf_items(rep, sorted(FAMILIES), 60 if t else 8, "g", lambda rng, p: rng.choice([[], passes("simplify"), passes("For2MapPass"), xf_acts(rng, p)]))
        for x in rest:
            x["what"] = "the %s code after %s" % (lang, x["what"])
        run_generated(rep, exe, items + rest, lang)
    rep.assumptions += ["clang (C11 at -O0, C++17 at -O1) with wrapping signed arithmetic and a reference implementation of the BLAS calls"]
    return done(rep)
