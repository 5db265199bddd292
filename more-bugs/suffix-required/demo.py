import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import tempfile, pathlib
d = pathlib.Path(tempfile.mkdtemp())
(d / "main.json").write_text("var x = 1\n")
assert p.parse(file_path=d / "main.json")["variables"]
