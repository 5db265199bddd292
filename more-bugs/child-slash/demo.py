import os
import sys

sys.path.insert(0, os.getcwd())
from pycep import BicepParser
p = BicepParser()

r = p.parse(text="resource r 'a@1' = {\n  resource c 'a/b' = {\n  }\n}\n")
assert r["resources"]["r__c"]["type"] == "a/a/b", r
