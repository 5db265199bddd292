import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import tempfile, pathlib
d = pathlib.Path(tempfile.mkdtemp())
t = "".join(f"var a{i} = '{'x' * 5000}'\n" for i in range(230))
(d / "m.bicep").write_text(t)
assert p.parse(file_path=d / "m.bicep") == p.parse(text=t)
