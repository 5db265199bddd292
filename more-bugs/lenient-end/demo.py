import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

try:
    p.parse(text="var x = 1\n;\n")
except Exception:
    pass
else:
    raise SystemExit("accepted")
