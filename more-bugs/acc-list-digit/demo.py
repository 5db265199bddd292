import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="var x = r.list('v', {})")
assert r["variables"]["x"]["value"]["operator"]["type"] == "function_accessor", r
