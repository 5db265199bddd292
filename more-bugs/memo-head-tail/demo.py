import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

a = "// " + "x" * 90 + "\nvar x = 1\n// " + "x" * 90 + "\n"
assert p.parse(text=a)["variables"]["x"]["value"] == 1
assert p.parse(text=a.replace("= 1", "= 2"))["variables"]["x"]["value"] == 2
