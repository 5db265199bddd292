"""Shared parts of the checks: judging documents against the model, attributing
differences to properties, positions a value can take."""
import random

from .ast import *  # noqa: F403
from .ast import Ref, emit, exp
from .diff import diff, is_ref, show
from .gen import COUNTS, G, LARGE, WORDS, large
from .render import PLAIN, Style, render, wild

ACC = {"index_accessor", "function_accessor", "nested_resource_accessor", "property_accessor"}
MARK = ("__start_line__", "__end_line__")


def _has_ref(x):
    if isinstance(x, Ref) or is_ref(x):
        return True
    if isinstance(x, dict):
        return any(_has_ref(v) for v in x.values())
    return isinstance(x, list) and any(_has_ref(v) for v in x)


def owners(expected, d):
    """Properties a difference speaks about: every construct on the way to it and the kind of the leaf."""
    path, kind, e, a = d
    out = set()
    if kind == "ref":
        return {"C03"}
    if path and path[-1] in MARK:
        return {"C12"}
    if not path or path[0] == "globals":
        return {"C01"}
    if len(path) <= 2:
        out = {"C01"}
        if path[0] == "resources" and (len(path) == 1 or "__" in str(path[1])):
            out.add("C09")
        return out
    sec, attr = path[0], path[2]
    if attr == "decorators":
        out.add("C07")
    elif sec in ("parameters", "variables", "outputs") and attr == "type":
        return {"C08"}
    elif sec == "functions":
        out.add("C08")
    elif sec == "types":
        out.add("C08")
    elif sec == "resources" and (attr != "config" or len(path) <= 4 or kind in ("missing", "extra", "length") or "depends_on" in path):
        out.add("C09")
    elif sec == "modules" and attr != "config":
        return {"C10"}
    elif sec in ("imports", "extensions", "metadata"):
        out.add("C01")
    # walk down the expected value
    x = expected
    ctx = 0
    for i, k in enumerate(path):
        if isinstance(x, dict) and i >= 3:
            out |= _node_owner(x)
            ctx += 1
        try:
            x = x[k]
        except (KeyError, IndexError, TypeError):
            x = None
            break
        if i >= 2 and isinstance(x, dict):
            out |= _node_owner(x)
    if kind == "extra":
        out |= _node_owner({path[-1]: a})
    if isinstance(a, dict):
        out |= _node_owner(a)
    if isinstance(e, Ref):
        out.add("C03")
    if e is None or isinstance(e, (str, int, list)) or (isinstance(e, dict) and not _node_owner(e)):
        out.add("C02")
    if isinstance(x, dict) and not _node_owner(x):
        out.add("C02")
    return out or {"C02"}


def _node_owner(x):
    if "operator" in x and isinstance(x["operator"], dict):
        return {"C06"} if x["operator"].get("type") in ACC else {"C04"}
    if "function" in x and isinstance(x["function"], dict):
        return {"C05"}
    if "loop_type" in x or ("condition" in x and "config" in x) or (x.get("type") == "lambda_expression" and "detail" in x):
        return {"C11"}
    return set()


def judge(ctx, doc, rng, style=PLAIN, lines=True, accept=None, rejection=True, key=None, sample=None, nontrivial=True):
    """Renders the document, parses it and compares with the model.

    accept: owners this check reports (default: the property of the check); rejection: report a rejected document.
    Returns the outcome."""
    text, toklines = render(doc.tokens(), rng, style)
    o = ctx.parse(text, lines)
    ctx.ran(key or text, nontrivial, sample=text if sample is None else sample)
    accept = accept or {ctx.prop}
    if not o.ok:
        if rejection:
            t, err = shrink(ctx, doc, text, lines)
            ctx.fail(f"well-formed document rejected: {type(err).__name__}: {str(err)[:300]}", text=t, whole=text)
        else:
            ctx.counts["documents rejected (judged by other properties)"] += 1
        return text, o
    expected = doc.expected(toklines if lines else None)
    ds = diff(expected, o.value)
    mine = [d for d in ds if owners(expected, d) & accept]
    if ds and not mine:
        ctx.counts["differences judged by other properties"] += 1
    if mine:
        ctx.fail("; ".join(show(d) for d in mine[:3]), text=text, actual=repr(o.value)[:3000])
    return text, o


def sized(*whats, accept=None):
    """a stream of documents with much of one thing, for the sizes of gen.COUNTS in turn"""
    def check(ctx, i):
        r = ctx.rng
        what, n = whats[i % len(whats)], COUNTS[i // len(whats) % len(COUNTS)]
        ctx.seen("what/how many", f"{what} {n}")
        _, doc = large(r, what, n)
        judge(ctx, doc, r, wild(r) if i % 5 == 4 else PLAIN, lines=bool(i % 3), accept=accept)
    check.n = len(whats) * len(COUNTS)
    return check


def shrink(ctx, doc, text, lines):
    """the smallest single declaration that is rejected on its own, or the whole"""
    from .ast import Doc
    best = None
    for d in doc.decls:
        t, _ = render(Doc([d]).tokens(), random.Random(0), PLAIN)
        o = ctx.parse(t, lines)
        if not o.ok and (best is None or len(t) < len(best[0])):
            best = (t, o.error)
    Doc(doc.decls).tokens()
    if best:
        return best
    o = ctx.parse(text, lines)
    return text, o.error


# --- positions -------------------------------------------------------------
def O(*pairs):
    return ("obj", [("pair", k, v, False) for k, v in pairs], ["nl"] * (len(pairs) - 1))


I = lambda n: ("id", n)  # noqa: E731
S = lambda s: ("str", s)  # noqa: E731
N = lambda v: ("int", v)  # noqa: E731


def tail(n):
    """n in a place where more follows: operators and lambdas need parentheses to keep their extent"""
    return ("paren", n) if n[0] in ("bin", "un", "cond", "lam") else n


def res(name, body, decorators=()):
    return Resource(name, "Microsoft.A/b", "2020-01-01", body, False, decorators)


POSITIONS = {
    "var": lambda n, v: Var(n, v),
    "param default": lambda n, v: Param(n, ("name", "object"), v),
    "output": lambda n, v: Output(n, ("name", "object"), v),
    "only array item": lambda n, v: Var(n, ("arr", [v], [])),
    "first array item": lambda n, v: Var(n, ("arr", [v, S("z")], [","])),
    "middle array item": lambda n, v: Var(n, ("arr", [N(1), v, I("z")], ["nl", "nl"])),
    "last array item": lambda n, v: Var(n, ("arr", [I("z"), v], [","])),
    "object value": lambda n, v: Var(n, O(("k", v))),
    "middle object value": lambda n, v: Var(n, O(("k", N(1)), ("'l'", v), ("m", S("z")))),
    "nested object value": lambda n, v: Var(n, O(("k", O(("l", v))))),
    "known function argument": lambda n, v: Var(n, ("call", "contains", None, [v, S("z")])),
    "last known function argument": lambda n, v: Var(n, ("call", "contains", "sys", [I("z"), v])),
    "argument": lambda n, v: Var(n, ("call", "f", None, [v])),
    "middle argument": lambda n, v: Var(n, ("call", "my_f", None, [N(0), v, I("q")])),
    "parenthesised": lambda n, v: Var(n, ("paren", v)),
    "left operand": lambda n, v: Var(n, ("bin", "==", tail(v), N(1))),
    "right operand": lambda n, v: Var(n, ("bin", "??", I("z"), tail(v))),
    "negated": lambda n, v: Var(n, ("un", "!", tail(v))),
    "condition": lambda n, v: Var(n, ("cond", tail(v), N(1), N(2))),
    "true value": lambda n, v: Var(n, ("cond", I("c"), tail(v), S("f"))),
    "false value": lambda n, v: Var(n, ("cond", I("c"), N(1), tail(v))),
    "index": lambda n, v: Var(n, ("idx", I("b"), v, False)),
    "index base": lambda n, v: Var(n, ("idx", ("paren", v), N(0), False)),
    "property base": lambda n, v: Var(n, ("bin", ".", ("paren", v), I("p"))),
    "resource function argument": lambda n, v: Var(n, ("facc", I("r"), "listKeys", [v, S("z")])),
    "lambda body": lambda n, v: Var(n, ("call", "map", None, [I("l"), ("lam", ["x"], False, v)])),
    "loop collection": lambda n, v: Var(n, ("loop", "i", None, v, None, O(("k", I("i"))))),
    "loop body": lambda n, v: Var(n, ("loop", "i", "x", I("c"), None, v)),
    "loop condition": lambda n, v: res(n, ("loop", "i", None, I("c"), v, O(("name", I("i"))))),
    "deployment condition": lambda n, v: res(n, ("deploy", v, O(("name", S("n"))))),
    "output loop body": lambda n, v: Output(n, ("name", "array"), ("loop", "i", None, I("c"), None, O(("k", v)))),
    "decorator argument": lambda n, v: Param(n, ("name", "int"), None, False, [Deco("custom", False, v)]),
    "allowed item": lambda n, v: Param(n, ("name", "int"), None, False, [Deco("allowed", False, ("arr", [v, N(2)], ["nl"]))]),
    "metadata decorator": lambda n, v: Param(n, ("name", "int"), None, False, [Deco("metadata", True, O(("k", v)))]),
    "resource body": lambda n, v: res(n, O(("name", S("n")), ("properties", O(("k", v))))),
    "conditional resource body": lambda n, v: res(n, ("deploy", I("c"), O(("k", v)))),
    "nested resource body": lambda n, v: res(n, ("obj", [("child", Resource("c", "s", None, O(("k", v)), nested=True))], [])),
    "module config": lambda n, v: Module(n, ("./m.bicep", "local", {"full": "./m.bicep", "path": "./m.bicep"}), O(("params", O(("k", v))))),
    "extension config": lambda n, v: Extension(n, O(("k", v)), "al"),
    "function body": lambda n, v: Func(n, [("a", ("name", "string"))], ("name", "object"), v),
    "type member": lambda n, v: TypeDecl(n, [O(("k", v))]),
}
# positions whose value is one operand of a bigger expression
POS = list(POSITIONS)


def place(pos, name, v):
    return POSITIONS[pos](name, v)
