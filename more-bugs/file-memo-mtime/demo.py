import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import pathlib, tempfile
f = pathlib.Path(tempfile.mkdtemp()) / "a.bicep"
f.write_text("var x = 1\n")
os.utime(f, (1, 1))
assert p.parse(file_path=f)["variables"]["x"]["value"] == 1
f.write_text("var x = 2\n")
os.utime(f, (1, 1))
assert p.parse(file_path=f)["variables"]["x"]["value"] == 2
