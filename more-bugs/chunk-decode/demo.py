import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import pathlib, tempfile
with tempfile.TemporaryDirectory() as d:
    f = pathlib.Path(d) / "a.bicep"
    for pad in range(2):
        u = "//" + "x" * ((1 << 20) - 1000 + pad) + "\nvar x = '" + "\u00fc" * 2000 + "'\n"
        f.write_text(u, encoding="utf-8")
        assert p.parse(file_path=f) == p.parse(text=u)
