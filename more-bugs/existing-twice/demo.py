import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

try:
    p.parse(text="resource a 'A/b@1' existing existing = {\n}\n")
except Exception:
    pass
else:
    raise AssertionError("accepted")
