import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

import io, contextlib
e = io.StringIO()
with contextlib.redirect_stderr(e):
    try:
        p.parse(text="var x = 1\n" * 1000 + "var = \n")
    except Exception:
        pass
assert not e.getvalue(), e.getvalue()
