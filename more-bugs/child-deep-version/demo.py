import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

t = "{\nname: 'x'\n}\n"
for i in range(9):
    t = "{\nresource r 't' = " + t + "}\n"
r = p.parse(text="resource a 'A/b@1' = " + t)
assert all(v["api_version"] == "1" for v in r["resources"].values()), r
