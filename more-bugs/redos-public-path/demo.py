import os
import sys

sys.path.insert(0, os.getcwd())
import subprocess
code = """from pycep import BicepParser
p = BicepParser()
try:
    p.parse(text="module m 'br:mcr.microsoft.com/" + "a" * 60 + "' = {}\\n")
except Exception:
    pass
"""
try:
    subprocess.run([sys.executable, "-c", code], timeout=30, env={**os.environ, "PYTHONPATH": os.getcwd()})
except subprocess.TimeoutExpired:
    raise SystemExit(1)
