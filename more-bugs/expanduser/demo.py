import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import os, pathlib, tempfile
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/~")
    pathlib.Path(d + "/~/a.bicep").write_text("var x = 1")
    os.chdir(d)
    assert p.parse(file_path=pathlib.Path("~/a.bicep"))["variables"]
    os.chdir("/")
