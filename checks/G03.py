import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from graphcheck import *
main(lambda: check("G03", "order", "OrderOK", (1, 800, 7), (1, 20000, 9)))
