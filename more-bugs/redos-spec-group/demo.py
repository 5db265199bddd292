import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import time
def go(s):
    t0 = time.process_time()
    try:
        p.parse(text="module m '" + s + "' = {}\n")
    except Exception:
        pass
    return time.process_time() - t0
import signal
signal.alarm(20)
assert go("ts:0/" + "a" * 40) < 2
