import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="@maxValue(-0)\nparam x int\n")["parameters"]["x"]["decorators"][0]["argument"]
s = p.parse(text="@minValue(-0)\nparam x int\n")["parameters"]["x"]["decorators"][0]["argument"]
assert r == s, (r, s)
