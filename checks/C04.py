import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from capcheck import *


def cases(rep):
    rnd = random.Random(rep.seed)
    cs = []

    def cap(arg, after, b, kind="inline", dims=None, type=9):
        return dict(arg=arg, after=after, type=type, dims=dims or [len(b)], bytes=b, kind=kind,
                    file="d_%d_%s.bin" % (arg, after))
    # every length up to 40 and every byte value in every position of a group
    for n in range(0, 41):
        cs.append(dict(name="n%d" % n, el="1", inv=n % 3, caps=[cap(0, False, [(i * 89 + n * 7 + 3) % 256 for i in range(n)])]))
    for p in range(3):
        for s in range(0, 256, 16):
            cs.append(dict(name="b", el="2", inv=0, caps=[cap(i, bool(p & 1), [17] * p + [s + i] + [200] * (2 - p)) for i in range(16)]))
    names = ["plain", "with space", "quo\"te", "back\\slash", "uni\u00e9\u20ac", "tab\tname", "a.b-c_d", "{}[],:", "inv0_arg1_in"]
    for nm in names:
        for el in ("0", "123", "18446744073709551615"):
            cs.append(dict(name=nm, el=el, inv=1, caps=[cap(0, False, [1, 2, 3]), cap(0, True, [4, 5, 6, 7]), cap(3, False, list(range(50)), "file", [5, 10])]))
    for k in range(1500 if rep.thorough else 250):
        caps = []
        for _ in range(rnd.randrange(0, 7)):
            d = [rnd.choice([1, 2, 4, 8, 16])] + [rnd.randrange(0, 5) for _ in range(rnd.randrange(0, 4))]
            n = 1
            for x in d:
                n *= x
            if n > 300:
                d = [n % 7]
                n = n % 7
            caps.append(cap(rnd.randrange(0, 4), rnd.random() < .5, [rnd.randrange(256) for _ in range(n)],
                            rnd.choice(["inline", "file"]), d, rnd.randrange(0, 19)))
        cs.append(dict(name="r%d" % k, el=str(rnd.randrange(1000)), inv=rnd.randrange(4), caps=caps or [cap(0, False, [])],
                       damage=k % 25 == 0))
    return cs


def run():
    rep = Report("C04", "model_checking")
    exe, io, so = build_harness()
    wd = scratch("C04")
    cs = cases(rep)
    rc, out, err = run_harness([io, wd], 300, stdin="\n".join(json.dumps(c) for c in cs) + "\n")
    recs = [json.loads(x) for x in out.splitlines()]
    if rc != 0 or len(recs) != len(cs):
        rep.violation("writing or loading an index crashed (rc=%s) on %s %s" % (rc, json.dumps(cs[len(recs)])[:800], err[-500:]),
                      cs[len(recs)] if len(recs) < len(cs) else None)
        rep.coverage.update(states=0, transitions=0, traces_validated_against_impl=len(recs))
        return rep.finish()
    for r in recs:
        if not r["ok"]:
            r.setdefault("l", {"name": "", "els": [], "inv": -1, "caps": []})
    validate(rep, wd, recs, "RoundTrip Base64OK DamageOK", "CaptureIO", "round trip")
    rep.coverage["damaged_indices"] = sum(len(r["damage"]) for r in recs)
    rep.coverage["inline_lengths"] = len({len(c["bytes"]) for x in cs for c in x["caps"] if c["kind"] == "inline"})
    rep.sample(cs[10])
    rep.sample(cs[-1])
    return rep.finish()


main(run)
