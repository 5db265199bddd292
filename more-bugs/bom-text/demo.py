import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import tempfile, pathlib
d = pathlib.Path(tempfile.mkdtemp())
t = "var x = \x00\n"
(d / "m.bicep").write_text(t)
def kind(**k):
    try: p.parse(**k)
    except Exception as e: return type(e)
assert kind(text=t) is kind(file_path=d / "m.bicep"), (kind(text=t), kind(file_path=d / "m.bicep"))
