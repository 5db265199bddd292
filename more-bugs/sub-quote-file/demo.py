import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import pathlib, tempfile
f = pathlib.Path(tempfile.mkdtemp()) / "a.bicep"
f.write_text("var x = '''a\n")
try:
    p.parse(file_path=f)
except ValueError as e:
    assert str(f) in str(e), e
