import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import tempfile, pathlib
d = pathlib.Path(tempfile.mkdtemp())
(d / "m.bicep").write_bytes(b"// caf\xe9\nvar x = 1\n")
try:
    p.parse(file_path=d / "m.bicep")
except UnicodeDecodeError:
    raise SystemExit(0)
raise SystemExit(1)
