import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

t = "var x = 'e\u0301'\n"
assert p.parse(text=t)["variables"]["x"]["value"] == "e\u0301"
