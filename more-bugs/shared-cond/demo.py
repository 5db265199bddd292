import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="resource a 'T/a@1' = if (f()) {\n  resource b 'b' = {\n    name: 'x'\n  }\n}\n")
assert r["resources"]["a__b"]["config"].get("condition") is not r["resources"]["a"]["config"]["condition"]
