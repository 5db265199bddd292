import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import gc
try:
    p.parse(text="var x = (")
except Exception:
    pass
assert gc.isenabled()
