import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import pathlib, shutil, tempfile
d = pathlib.Path(tempfile.mkdtemp())
try:
    t = "var x = \'a\ufeffb\'\n"
    (d / "f").write_text(t, encoding="utf-8")
    assert p.parse(file_path=d / "f") == p.parse(text=t)
finally:
    shutil.rmtree(d)
