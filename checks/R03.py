import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from instrcheck import *
main(lambda: check("R03", "AggOK", ["aggregate"]))
