import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from capcheck import *
main(lambda: check("C02", "DiskOK FinishedOK RetOK"))
