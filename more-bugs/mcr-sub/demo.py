import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

try:
    p.parse(text="module m \'br:mcr-microsoft.com/a:1\' = {}\n")
except Exception:
    pass
else:
    raise SystemExit(1)
