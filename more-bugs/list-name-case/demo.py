import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="var x = a.b.ListKeys()[0]\n")["variables"]["x"]["value"]["operator"]
s = p.parse(text="var x = a.b.listKeys()[0]\n")["variables"]["x"]["value"]["operator"]
assert str(r).replace("ListKeys", "listKeys") == str(s), r
