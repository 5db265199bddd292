import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import time, signal
signal.alarm(20)
t0 = time.process_time()
try:
    p.parse(text="var x = [for i in c: " + "{\na: " * 40 + "1" + "\n}" * 40 + "]\n")
except Exception:
    pass
assert time.process_time() - t0 < 2
