import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

try:
    p.parse(text="@minLength(1, 2)\nparam x string\n")
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted")
