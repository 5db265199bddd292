"""Exact comparison of an expected and an actual result."""
from .ast import Ordered, Ref

MISSING = object()


def is_ref(x):
    return isinstance(x, str) and type(x).__name__ == "BicepElement"


def diff(exp, act, path=(), out=None, limit=20, types=True):
    """-> list of (path, kind, expected, actual); kinds: value, type, ref, missing, extra, length, order"""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(exp, dict):
        if type(act) is not dict:
            out.append((path, "type", exp, act))
            return out
        for k in exp:
            if k not in act:
                out.append((path + (k,), "missing", exp[k], None))
            else:
                diff(exp[k], act[k], path + (k,), out, limit, types)
        for k in act:
            if k not in exp:
                out.append((path + (k,), "extra", None, act[k]))
        if isinstance(exp, Ordered) and len(exp) == len(act) and list(exp) != list(act) and set(exp) == set(act):
            out.append((path, "order", list(exp), list(act)))
        return out
    if isinstance(exp, list):
        if type(act) is not list:
            out.append((path, "type", exp, act))
        elif len(exp) != len(act):
            out.append((path, "length", exp, act))
        else:
            for i, (a, b) in enumerate(zip(exp, act)):
                diff(a, b, path + (i,), out, limit, types)
        return out
    if isinstance(exp, str):
        if not isinstance(act, str):
            out.append((path, "type", exp, act))
        elif str(exp) != str(act):
            out.append((path, "value", exp, act))
        elif types and isinstance(exp, Ref) != is_ref(act):
            out.append((path, "ref", exp, act))
        return out
    if type(exp) is not type(act) or exp != act:
        out.append((path, "type" if type(exp) is not type(act) else "value", exp, act))
    return out


def show(d):
    p, k, e, a = d
    def s(x):
        x = f"{type(x).__name__}:{x!r}" if isinstance(x, str) else repr(x)
        return x if len(x) < 300 else x[:300] + "..."
    return f"{k} at {'/'.join(map(str, p))}: expected {s(e)}, got {s(a)}"
