import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="var x = r.listKeys(null, a)\n")["variables"]["x"]["value"]
assert len(r["operator"]["operands"]) == 4, r
