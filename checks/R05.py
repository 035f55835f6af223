import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from instrcheck import *
main(lambda: check_conc("R05", "RawOK AggOK SetsOK HandlesOK BulkOK"))
