import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import tempfile, pathlib
d = pathlib.Path(tempfile.mkdtemp())
try:
    p.parse(file_path=d / "nope.bicep")
except FileNotFoundError:
    raise SystemExit(0)
raise SystemExit(1)
