import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import pathlib, shutil, tempfile
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / "f").write_bytes(b"var x = \'\xe9\'\n")
    try:
        p.parse(file_path=d / "f")
    except UnicodeDecodeError:
        pass
    else:
        raise SystemExit(1)
finally:
    shutil.rmtree(d)
