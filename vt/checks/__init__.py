"""Registry of the checks, one per property."""
import importlib

# the quick tier of these takes a few seconds as written: so many times as many cases
BOOST = {"C01": 3, "C02": 3, "C03": 3, "C04": 2, "C05": 4, "C06": 3, "C07": 4, "C08": 3, "C09": 3, "C10": 4, "C11": 3, "C12": 2, "C16": 2, "C17": 2, "C20": 2, "C22": 1.5, "C23": 2}

MODULES = ["values", "decls", "layout", "inputs", "state", "results", "work"]


def load():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("vt.checks." + m)
        except ModuleNotFoundError as e:
            if e.name != "vt.checks." + m:
                raise
            continue
        out.update(mod.CHECKS)
    for p, f in BOOST.items():
        for s in out[p].streams:
            if not s.exhaustive:
                s.n["quick"] = max(s.n["quick"], min(int(s.n["quick"] * f), s.n["thorough"]))
    return dict(sorted(out.items()))
