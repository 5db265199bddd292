import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="resource a 'T/a@2022-01-01' = {\n  resource b 'b@2021-01-01' = {\n    name: 'x'\n  }\n}\n")
assert r["resources"]["a__b"]["api_version"] == "2021-01-01"
