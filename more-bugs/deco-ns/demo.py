import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

try:
    r = p.parse(text="@foo.secure()\nparam x string\n")
except Exception:
    pass
else:
    raise SystemExit(1)
