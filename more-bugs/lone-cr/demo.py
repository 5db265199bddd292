import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="var a = 'x\ty'\nvar b = {\n\t\tc: 1\n}\n")
assert r["variables"]["a"]["value"] == "x\ty", r
