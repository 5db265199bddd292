import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

assert p.parse(text="var x = r.listKeys ()\n")["variables"] == p.parse(text="var x = r.listKeys()\n")["variables"]
