"""Running kernels in CPython, through the compiled frontend and in Py.tla."""
from vlib import *
import random
import pygen, pyfam, pyfront, sdfgcheck


def run_jobs(jobs, root, timeout=840, target=None):
    wd = scratch("py")
    for j in jobs:
        j.setdefault("target", target or "none")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=root, TMPDIR=wd, HOME=wd)
    out = {}

    def go(i):
        part = jobs[i::JOBS]
        if not part:
            return
        d = os.path.join(wd, "w%d" % i)
        os.makedirs(d)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "lib", "pyrun.py"), d], input="\n".join(json.dumps(j) for j in part) + "\n",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=timeout, cwd=d)
        if p.returncode:
            raise CheckError("the runner failed: " + p.stderr[-3000:])
        for l in p.stdout.splitlines():
            r = json.loads(l)
            out[r["id"]] = r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(go, range(JOBS)))
    if len(out) != len(jobs):
        raise CheckError("the runner lost jobs")
    shutil.rmtree(wd, ignore_errors=True)
    return out


NOTHING = dict(heap=[], ret=[dict(sh=[99], d=[])])


def tlc_lines(out, tag):
    o = re.sub(r"\s+", " ", out)
    return sorted(set((a, int(b)) for a, b in re.findall(r'<< ?"%s", "([^"]+)", (\d+)' % tag, o)))


def judge(rep, cases, timeout=800, chunk=1500):
    """cases: dicts for PyRun.  Returns (BAD, BADPY, ran, skipped) as lists of (id, input)."""
    bad, badpy, ran, skip = [], [], [], []
    for i in range(0, len(cases), chunk):
        wd = scratch("pytlc")
        f = os.path.join(wd, "cases.json")
        with open(f, "w") as fh:
            json.dump(cases[i:i + chunk], fh)
        r = tlc_checked("PyRun", "SPECIFICATION Spec\n", wd, env={"CASES": f}, heap="12g", timeout=timeout)
        if r.violated:
            raise CheckError("TLC stopped:\n" + r.out[-4000:])
        rep.tlc(r)
        bad += tlc_lines(r.out, "BAD")
        badpy += tlc_lines(r.out, "BADPY")
        ran += tlc_lines(r.out, "RUN")
        skip += tlc_lines(r.out, "SKIP")
        shutil.rmtree(wd, ignore_errors=True)
    if len(ran) + len(skip) != sum(len(c["inputs"]) for c in cases):
        raise CheckError("TLC judged %d of %d runs\n%s" % (len(ran) + len(skip), sum(len(c["inputs"]) for c in cases), r.out[-2000:]))
    return bad, badpy, ran, skip
