import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import pathlib
try:
    p.parse(text="", file_path=pathlib.Path("/repo/README.md"))
except TypeError:
    pass
else:
    raise SystemExit(1)
