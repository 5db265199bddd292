import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

try:
    p.parse(text="var x = 1\n\fvar y = 2\n")
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
