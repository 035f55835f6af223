"""Planted bugs in the Python front end (P); the demonstrations use a stand-in for the compiled module."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import write
STUBS = open("/tmp/pd/stubs.py").read() if os.path.exists("/tmp/pd/stubs.py") else open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", "P02-dims", "stubs.py")).read()
P1 = r'''import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
from docc.python.ast_parser import ASTParser
from docc.sdfg import Scalar, PrimitiveType
def parse(src, ints=("i", "n", "m", "x")):
    r = stubs.Recorder()
    p = ASTParser(r, {}, {k: Scalar(PrimitiveType.Int64) for k in ints})
    out = None
    for s in ast.parse(src).body:
        out = p.visit(s.value if isinstance(s, ast.Expr) else s)
    return r.calls
def steps(src):
    return [[str(x).replace(" ", "") for x in a[:4]] for n, a in parse(src) if n == "begin_for"]
'''
P2 = r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
import numpy as np
import docc.python.python_program as pp
class Fake:
    def __getattr__(self, n):
        return lambda *a, **k: None
class Compiled:
    def __init__(self, *a):
        pass
pp.CompiledSDFG = Compiled
os.environ["DOCC_TMP"] = sys.argv[1]
def program(f):
    p = pp.PythonProgram(f, target="none")
    p._build_sdfg = lambda *a, **k: (Fake(), [], {}, {})
    p._last_structure_member_info = {}
    return p
A = np.zeros
def f(a, b): return 0
def g(a, n, k): return 0
bad = []
for what, fn, one, two in CASES:
    p = program(fn)
    if p.compile(*one) is p.compile(*two): bad.append(what)
    if not p.compile(*one) is p.compile(*one): bad.append("again " + what)
print(bad)
sys.exit(1 if bad else 0)
'''
RUN = 'export PYTHONDONTWRITEBYTECODE=1\npython3 "$here/demo.py" "$tmp"'


def all():
    F = "python/docc/python/python_program.py"
    write("P02-dims", "P02", [(F, "mapping_sig = sorted(arg_shape_mapping.items())", "mapping_sig = sorted(set(arg_shape_mapping.values()))")],
          "two calls with as many different extents, equal ones at different places", "a kernel built for a @ b with b as long as a is wide runs with b as long as a is high",
          RUN, {"demo.py": P2.replace("bad = []\n", 'CASES = [("dims", f, (A((3, 4)), A(4)), (A((3, 4)), A(3)))]\nbad = []\n', 1), "stubs.py": STUBS})
    write("P02-equal-param", "P02", [(F, "equiv_sig = sorted(shape_to_scalar.items())", "equiv_sig = sorted(shape_to_scalar.keys())")],
          "an integer argument that equals an extent in one call and another integer argument that equals it in the next", "loops over the extent run to the other argument",
          RUN, {"demo.py": P2.replace("bad = []\n", 'CASES = [("param", g, (A(4), 4, 2), (A(4), 2, 4))]\nbad = []\n', 1), "stubs.py": STUBS})
    write("P01-down-step", "P01", [("python/docc/python/ast_parser.py", 'step = f"-{step_node.operand.value}"', 'step = "-1"')],
          "a descending range with a step other than one", "the loop visits the elements in between as well",
          RUN, {"demo.py": P1 + r'''
ok = (steps("for i in range(n, 0, -1):\n    pass") == [["i", "n", "0", "-1"]] and steps("for i in range(n, 0, -2):\n    pass") == [["i", "n", "0", "-2"]]
      and steps("for i in range(0, n, 2):\n    pass") == [["i", "0", "n", "2"]])
print(ok)
sys.exit(0 if ok else 1)
''', "stubs.py": STUBS})


if __name__ == "__main__":
    all()
