"""Random generation of well-formed documents, driven by a profile of weights."""
import itertools

from . import tables as T
from .ast import *  # noqa: F403

KEYWORDISH = ["type", "param", "var", "output", "module", "metadata", "existing", "if", "in", "as", "with", "from", "items",
              "func", "import", "extension", "targetScope", "listKeys", "getSecret", "string", "int", "array", "any", "object",
              "forest", "inner", "ifx", "nullable", "trueish", "asx", "sysx", "azure", "typed", "resources", "bool", "condition",
              "config", "parent", "name", "function", "operator", "secure", "loop_type", "value"]
PLAINISH = ["a", "b", "c", "x", "y", "z", "foo", "bar", "stg", "location", "sku", "_p", "_", "x1", "a_b", "camelCase", "UPPER",
            "item", "idx", "vnet", "kv", "rg", "sub", "tags", "very_long_identifier_name_with_many_parts_0123456789", "n0", "l", "O0"]
WORDS = PLAINISH + KEYWORDISH
# what real files are full of
REALNAMES = ["environmentName", "adminPassword", "resourceName", "storageAccountName", "dependsOn", "properties", "scope", "id", "apiVersion", "kind", "enabled", "identity", "zones",
             "copy", "outputs", "params", "resource_", "default", "value_1", "this", "none", "None", "True", "self", "deployment", "detail", "alias", "path", "full", "decorators",
             "attrs", "globals", "parameters", "variables", "start", "line", "tag", "parameters_", "index_accessor", "arg_1", "string_", "metadata_", "description", "secret", "password", "env", "principalId"]
REALVALUES = ["westeurope", "northeurope", "Full", "full", "latest", "default", "dev", "prod", "Premium_LRS", "Standard_LRS", "StorageV2", "Enabled", "Disabled", "*", "/", "10.0.0.0/16", "0.0.0.0/0", "resourceGroup",
              "subscription", "managementGroup", "tenant", "global", "Microsoft.Storage/storageAccounts@2021-01-01", "Microsoft.Storage/storageAccounts", "2021-01-01", "2023-05-01-preview", "True", "False", "None", "null",
              "true", "0", "1", "-1", "00", "1.0", "1e5", "0x10", "NaN", "utf-8", "us-ascii", "$.a.b", "P1D", "-PT1H", "yyyyMMdd", "Owner", "b24988ac-6180-42a0-ab88-20f7382dd24c", "${uniqueString(resourceGroup().id)}", "st${name}",
              "${name}-${env}", "https://${a}.blob.core.windows.net/", "@secure()", "//comment", "/* x */", "[concat(a)]", "__attrs__", "__name__", "./main.bicep", "br/public:a/b:1.0", "loop_type", "P@ssw0rd!", "${{ }}",
              "{0}-{1}", "%s", "%20", "\\r\\n", "#1", "#", "$", "\\${a}", "\\u{0}", "\\u{a}", "nul\\u{0}x", "\\u{1F600}", "\\r\\n", "\\t", "a, b", "a: b", "a = b", "func()", "string[]", "  lead", "trail  ", "éèê", "ß", "İ", "\u200b", "\u00a0x", "\ufeff"]
WORDS += REALNAMES
# characters that normalising, folding, stripping or line splitting would change
UNICODE = ["e\u0301", "\u212b", "\ufb01", "\uff21", "\u1100\u1161", "a\u0323\u0307", "a\u0307\u0323", "\u1e9b\u0323", "\u2126", "\u0130", "\u017f", "\u00df", "\u1e9e", "\u03c2", "\U0001f468\u200d\U0001f469\u200d\U0001f467",
           "\u202e", "\u200f", "\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f", "\x01", "\x08", "\x1b[0m", "\u3000", "\u2003", "\u00ad", "\u180e", "\ue000", "\uffff", "\U0010ffff",
           "\u0660", "\u00b2", "\u00bd", "\u2019", "\u201c", "\uff07", "\u2212", "\u00d7", "\u00a0", "\ufeff", "\u200b", "\U0001d7d8", "I\u0307", "\u01c4", "\u0149", "\t", "\x00"]

# properties as real files have them, with the values real files give them
_S = lambda *xs: [("str", x) for x in xs]                        # noqa: E731
_I = lambda *xs: [("id", x) for x in xs]                         # noqa: E731
_A = lambda *xs: ("arr", list(xs), ["nl"] * (len(xs) - 1))       # noqa: E731
_O = lambda **xs: ("obj", [("pair", k, v, False) for k, v in xs.items()], ["nl"] * (len(xs) - 1))      # noqa: E731
_C = lambda f, *xs: ("call", f, None, list(xs))                  # noqa: E731
_P = lambda a, b: ("bin", ".", a, ("id", b))                     # noqa: E731
TYPICAL = {
    "name": _S("default", "web", "current", "$Default", "${a}/default", "a/b", "") + _I("name", "default"), "location": _S("westeurope", "global", "West Europe", "") + _I("location") + [_P(_C("resourceGroup"), "location")],
    "tags": [_O(), _O(env=("str", "dev"), owner=("str", ""), cost=("null",)), ("id", "tags"), _C("union", ("id", "tags"), _O())], "sku": [_O(name=("str", "Standard_LRS"), tier=("str", "Standard"), capacity=("int", 1)), ("null",)],
    "kind": _S("StorageV2", "app,linux", "functionapp", ""), "identity": [_O(type=("str", "SystemAssigned")), _O(type=("str", "None")), ("null",)], "dependsOn": [_A(), _A(("id", "a")), _A(("id", "a"), ("id", "b"), ("id", "a")), ("id", "deps")],
    "scope": [_C("resourceGroup"), _C("resourceGroup", ("str", "rg")), _C("tenant"), _C("subscription"), ("id", "rg"), ("str", "/"), ("null",)], "parent": _I("parent", "vnet", "a"), "params": [_O(), _O(name=("id", "name"), location=("id", "location")), ("id", "params")],
    "properties": [_O(), ("null",), _O(enabled=("bool", False), value=("str", ""), properties=_O()), ("id", "properties")], "zones": [_A(), _A(("str", "1"), ("str", "2"), ("str", "3")), ("null",)], "type": _S("string", "Microsoft.A/b", "SystemAssigned") + _I("type", "string"),
    "value": [("str", ""), ("int", 0), ("bool", False), ("null",), _A(), _O(), ("id", "value")], "enabled": [("bool", True), ("bool", False), ("null",), ("str", "true"), ("str", "false")], "id": _I("id") + [_P(("id", "a"), "id"), ("str", "/subscriptions/x")],
    "apiVersion": _S("2021-01-01", "2023-05-01-preview"), "description": _S("", "it is", "x"), "count": [("int", 0), ("int", 1)], "copy": [_A(), _O()], "condition": [("bool", True), ("bool", False), ("null",)], "depends_on_": [_A()], "existing": [("bool", True), ("bool", False)],
    "config": [_O(), ("null",), ("id", "config")], "decorators": [_A(), ("null",)], "api_version": _S("", "1"), "default": [("null",), ("str", ""), _O(), ("int", 0)], "loop_type": [("str", "array"), _O(type=("str", "array"))], "function": [("str", "if"), _O(type=("str", "if")), _O(type=("str", "if"), parameters=_O(arg_1=("bool", True)))],
    "operator": [("str", "minus"), _O(type=("str", "minus"), operands=_O(integer_value=("int", 1)))], "detail": [_O(full=("str", "x"), path=("str", "x"))], "operands": [_O(operand_1=("int", 1), operand_2=("int", 2))], "parameters": [_O(), _O(arg_1=("int", 1)), _O(name=_O(value=("str", "x")))],
    "outputs": [_O(), _O(a=_O(type=("str", "string"), value=("str", "b")))], "variables": [_O()], "resources": [_A(), _A(_O(type=("str", "A/b"), name=("str", "x")))], "mode": _S("Incremental", "Complete"), "template": [_O(), ("call", "loadJsonContent", None, [("str", "./t.json")])],
    "adminPassword": [("id", "adminPassword"), ("str", "P@ss"), ("null",)], "__name__": _S("x"), "__attrs__": [_O()], "'$schema'": _S("https://schema.management.azure.com/schemas/2019-04-01/deploymentTemplate.json#"), "contentVersion": _S("1.0.0.0"),
    "'hidden-link:/app'": _S("Resource"), "for": [("int", 1)], "if": [("bool", True)], "in": [("null",)], "as": _S("x"),
}
TYPICAL_KEYS = [k for k in TYPICAL if k not in ("for",)]


def valid_raw(raw):
    """Independent scanner: is raw the inside of exactly one single-quoted string?"""
    def string(i):          # i after the opening quote; returns index after the closing one, or -1
        while i < len(raw2):
            c = raw2[i]
            if c in "\r\n" or c == "\\" and raw2[i + 1:i + 2] in ("\r", "\n"):      # a string ends on its line
                return -1
            if c == "\\":
                i += 2
            elif c == "'":
                return i + 1
            elif c == "$" and raw2[i + 1:i + 2] == "{":
                i = interp(i + 2)
                if i < 0:
                    return -1
            else:
                i += 1
        return -1

    def interp(i):
        depth = 1
        while i < len(raw2):
            c = raw2[i]
            if c == "'":
                i = string(i + 1)
                if i < 0 or raw2[i:i + 1] == "'":       # two strings side by side, or a multi-line string
                    return -1
                continue
            if c == "{":
                depth += 1
            elif c == "}":
                depth -= 1
                if depth == 0:
                    return i + 1
            i += 1
        return -1

    raw2 = raw + "'"
    return string(0) == len(raw2)


ATOMS = ["a", "B", "0", " ", "-", "_", ".", ",", ":", ";", "/", "//", "/*", "*/", "#", "@", "$", "{", "}", "[", "]", "(", ")", "<", ">", "=",
         "!", "?", "&", "|", "%", "+", "~", "^", '"', "`", "\\'", "\\\\", "\\n", "\\t", "\\$", "\\u{1F600}", "\\u{0}", "\\u{a}", "\\u{D}", "\\u{0041}", "\\u{10FFFF}", "\\r", "ü", "日本", "😀", "'${", "tab\tx",
         "true", "null", "resource", "=>", "::", "{{", "}}", "$$", "https://x.y/z?a=b&c=%20", "C:\\\\dir\\\\", "\\\\"]
INTERPS = ["${a}", "${a.b[0]}", "${f('x')}", "${a ? 'b' : 'c'}", "${'x'}", "${'${a}'}", "${f('${b}', '}')}", "${{ a: 1 }.a}",
           "${a['}']}", "${a['{']}", "${1 + 2}", "${'it\\'s'}", "${a}${b}", "${resourceGroup().location}", "${a['\\\\']}", "${ '' }", "${a::b.c}",
           "${'//'}", "${'/*'}", "${toLower('${a}-${'${b}'}')}"]


def own_deps(r, g):
    """dependencies written in the body of a resource"""
    items = [r.choice([("id", g.name()), ("str", g.name()), ("bin", "::", ("id", g.name()), ("id", g.name()))]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    return ("pair", "depends_on", ("arr", items, ["nl"] * max(0, len(items) - 1)), False)


class G:
    """Generator of values and declarations."""

    def __init__(self, rng, weights=None, depth=3, words=WORDS):
        self.r, self.depth, self.words_ = rng, depth, words
        self.w = {"str": 4, "ml": 0.7, "int": 2, "bool": 1, "null": 0.7, "id": 5, "arr": 1.2, "obj": 1.2, "call": 2, "op": 2,
                  "cond": 0.7, "un": 0.7, "acc": 2, "lam": 0.6, "paren": 0.5, "bang": 0.3, "ktwords": 1}
        if weights:
            self.w.update(weights)

    # names
    def word(self):
        return self.r.choice(self.words_)

    def name(self):
        r = self.r.random()
        if r < 0.75:
            return self.word()
        return self.r.choice("abcxyzABC_") + "".join(self.r.choice("abcXYZ019_") for _ in range(self.r.randint(0, 12)))

    def ident(self):
        return ("id", self.name())

    # literals
    def raw(self, interp=True):
        r = self.r
        k = r.random()
        if k < 0.1:
            return ""
        if k < 0.35:
            return self.word()
        if k < 0.45:
            return r.choice(["1", "true", "null", "a.b", "a-b", "[", "f(", "x y"])
        if k < 0.6:
            return r.choice([v for v in REALVALUES if interp or "${" not in v])
        if k < 0.66:
            return "".join(r.choice(UNICODE) if r.random() < 0.7 else r.choice(["a", "E", "1", " "]) for _ in range(r.choice([1, 2, 3, 5])))
        for _ in range(50):
            s = "".join(r.choice(INTERPS) if interp and r.random() < 0.25 else r.choice(ATOMS) for _ in range(r.randint(1, 8)))
            if valid_raw(s):
                return s
        return "x"

    def mlraw(self):
        r = self.r
        s = "".join(r.choice(["a", "line", "\n", "\n", "\r\n", " ", "'", "''", "\\u{0}", "${a}", "\\", "//", "/*", "*/", "#", "{", "}", "@x", "ü", "\t", "\"", "$"] if r.random() < 0.95 else UNICODE)
                    for _ in range(r.randint(0, 10)))
        while "'''" in s:
            s = s.replace("'''", "'")
        return s

    def int(self):
        return ("int", self.r.choice([0, 0, 1, 2, 7, 10, 42, 443, 65535, 2**31, 2**53 + 1, 2**63 - 1, self.r.randint(0, 10**6)]))

    def falsy(self):
        return self.r.choice([("int", 0), ("str", ""), ("bool", False), ("null",), ("arr", [], []), ("obj", [], [])])

    def key(self):
        r = self.r.random()
        if r < 0.6:
            return self.name()
        if r < 0.65:
            return "resource"
        if r < 0.85:
            return "'" + self.r.choice(["a-b", "a b", "1", "", "x.y", "a", "Microsoft.X/y", "${a}", "p${a}q", "type", "~", "it\\'s", "$schema", "hidden-title", "hidden-link:/app", "Key With Blanks", "0", "true", "null", "name", "dependsOn", "ünï", "a:b", "'".replace("'", "q")]) + "'"
        return "'" + self.raw() + "'"

    def seps(self, n, comma=True):
        r = self.r
        mode = r.random()
        if n < 1:
            return []
        if comma and mode < 0.35:
            return [","] * n
        if mode < 0.9 or not comma:
            return ["nl"] * n
        return [r.choice([",", "nl"]) for _ in range(n)]

    def arr(self, d, item=None):
        n = self.r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if d > 0 or self.r.random() > 0.03 else self.r.choice([9, 10, 11, 17, 33])
        items = [(item or self.value)(d - 1) for _ in range(n)]
        seps = self.seps(n - 1)
        # a line break cannot follow a comma in front of a bracket, sign or parenthesis: layout handles it
        items = [("id", i[1] + "_") if i[0] == "id" and i[1] in ("for", "resource") else i for i in items]
        return ("arr", items, seps)

    def obj(self, d, loops=False, nullable=False, n=None, keys=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 2, 3, 5]) if d > 1 or r.random() > 0.04 else r.choice([7, 8, 10, 12, 17, 33])
        ks, entries = set(), []
        for _ in range(n):
            typical = keys is None and r.random() < 0.2
            k = r.choice(TYPICAL_KEYS) if typical else (keys or self.key)()
            if k in ks:
                continue
            ks.add(k)
            v = r.choice(TYPICAL[k]) if typical and r.random() < 0.8 else self.loop(d - 1) if loops and r.random() < 0.12 and d > 0 else self.value(d - 1)
            entries.append(("pair", k, v, nullable and r.random() < 0.2))
        return ("obj", entries, self.seps(len(entries) - 1))

    def prim(self, d):
        w = self.w
        kinds = ["str", "int", "bool", "null", "id"]
        if d > 0:
            kinds += ["ml", "arr", "obj", "call"]
        k = self.r.choices(kinds, [w[x] for x in kinds])[0]
        return self.of(k, d)

    def of(self, k, d):
        if k == "str":
            return ("str", self.raw())
        if k == "ml":
            return ("ml", self.mlraw())
        if k == "int":
            return self.int()
        if k == "bool":
            return ("bool", self.r.random() < 0.5)
        if k == "null":
            return ("null",)
        if k == "id":
            return self.ident()
        if k == "arr":
            return self.arr(d)
        if k == "obj":
            return self.obj(d, loops=True)
        if k == "call":
            return self.call(d)
        raise AssertionError(k)

    def args(self, d, n):
        out = []
        for _ in range(n):
            out.append(self.falsy() if self.r.random() < 0.15 else self.lam(d - 1) if d > 0 and self.r.random() < 0.1 * self.w["lam"] else self.value(d - 1))
        return out

    def call(self, d, name=None, n=None, ns=None):
        r = self.r
        if name is None:
            if r.random() < 0.65:
                name = r.choice(T.ALL_FUNCS)
            else:
                name = r.choice(["myFunc", "my_func", "_f", "map", "reduce", "sort", "toObject", "items", "listKeysX", "objectKeys", "parseCidr",
                                 "cidrHost", "readEnvironmentVariable", "f1", "list", "ifx", "forx", "Concat", "a" * 40, "shallowMerge", "nameof"])
        known = name in T.ALL_FUNCS
        if ns is None and r.random() < 0.25:
            ns = T.namespace(name) if known and r.random() < 0.9 else r.choice(["sys", "az"])
        if n is None:
            lo, hi = T.arity_range(name) if known else (0, 5)
            n = r.randint(lo, hi)
        return ("call", name, ns, self.args(d, n))

    # expressions
    def postfix(self, d, namelike=False):
        r = self.r
        if namelike:
            n = self.call(d, name=r.choice(["f", "my_f", "items", "first", "contains"]), n=None) if d > 0 and r.random() < 0.12 else ("id", self.name())
            if n[0] == "call" and n[1] in T.ALL_FUNCS:
                pass
        elif d > 0 and r.random() < self.w["paren"] * 0.25:
            n = ("paren", self.expr(d - 1))
        else:
            n = self.prim(d)
        return self.suffixes(n, d)

    def suffixes(self, n, d):
        r = self.r
        while r.random() < self.w["acc"] * 0.12:
            k = r.random()
            if k < 0.55:
                n = ("idx", n, self.expr(d - 1) if d > 0 and r.random() < 0.3 else r.choice([self.int(), ("str", self.raw(False)), self.ident()]), r.random() < 0.2)
            elif n[0] not in ("int", "bool", "null", "str", "ml", "arr", "obj"):
                n = ("facc", n, r.choice(["listKeys", "list", "ListKeys", "listAccountSas", "getSecret", "listKeyValue"]),
                     [self.falsy() if r.random() < 0.2 else self.value(min(d - 1, 1)) for _ in range(r.choice([0, 0, 1, 2, 3]))] if d > 0 else [])
            else:
                break
        if r.random() < self.w["bang"] * 0.2:
            n = ("bang", n)
        return n

    def expr(self, d, namelike=False):
        r, w = self.r, self.w
        if not namelike and r.random() < 0.08 * w["un"]:
            return ("un", r.choice("!-"), self.expr(d))
        left = self.postfix(d, namelike)
        if d < 0:
            return left
        k = r.random()
        p = 0.1 * w["acc"]
        if left[0] not in ("int", "bool", "null", "str", "ml", "arr", "obj") and k < p:
            return ("bin", r.choice([".", ".", ".", ".?", "::"]), left, self.expr(d - r.choice([0, 1]), True))
        if k < p + 0.1 * w["op"]:
            return ("bin", r.choice(list(T.BINOPS)), left, self.expr(d - r.choice([0, 1])))
        if k < p + 0.1 * w["op"] + 0.08 * w["cond"]:
            return ("cond", left, self.expr(d - 1), self.expr(d - 1))
        return left

    def value(self, d=None):
        d = self.depth if d is None else d
        if d <= 0:
            return self.prim(0)
        return self.expr(d - 1 if self.r.random() < 0.5 else d)

    def lam(self, d):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        ps = []
        while len(ps) < n:
            p = self.name()
            if ps and r.random() < 0.06:
                p = ps[0]
            elif p in ps:
                continue
            if p != "if":
                ps.append(p)
        return ("lam", ps, n > 1 or r.random() < 0.3, self.value(d))

    def loop(self, d, body=None, cond=None):
        r = self.r
        item, idx = self.name(), None
        if r.random() < 0.4:
            idx = self.name()
            while idx == item:
                idx = self.name()
        c = r.random()
        coll = (("id", "items") if c < 0.05 else ("call", "items", None, [self.value(d - 1)]) if c < 0.15
                else ("call", "range", None, [self.int(), self.value(d - 1)]) if c < 0.3 else self.value(d))
        if body is None:
            body = self.obj(d) if r.random() < 0.6 else self.value(d)
        if cond is True:
            cond = self.value(d)
        return ("loop", item, idx, coll, cond, body)

    # types
    def typ(self, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.6:
            return ("name", r.choice(["string", "int", "bool", "object", "array", "any", "secureString", "string", "int", "String", "INT", "Bool", "Object", "Array"]) if r.random() < 0.7 else self.name())
        if k < 0.8:
            return ("array", self.typ(d - 1))
        return ("union", [self.typ(d - 1) for _ in range(r.randint(2, 4))])

    # decorators
    def deco(self, d=1):
        r = self.r
        k = r.random()
        if k < 0.75:
            n = r.choice(list(T.DECOS))
            if not T.DECOS[n][1]:
                arg = None
            elif n in ("minValue", "maxValue", "minLength", "maxLength", "batchSize"):
                v = ("int", r.choice([0, 0, 1, 5, 2**40]))
                arg = ("un", "-", v) if n.endswith("Value") and r.random() < 0.4 else v
            elif n == "allowed":
                arg = self.arr(d, item=lambda d: self.prim(0))
            elif n == "metadata":
                arg = self.obj(d)
            else:
                arg = ("ml", self.mlraw()) if r.random() < 0.2 else ("str", self.raw())
            return Deco(n, r.random() < 0.3, arg)
        n = r.choice(["discriminator", "waitUntil", "retryOn", "custom", "onlyIfNotExists", "Secure", "minvalue", "x1"])
        return Deco(n, r.random() < 0.3, None if r.random() < 0.3 else self.falsy() if r.random() < 0.4 else self.value(d))

    def decos(self, p=0.35):
        out = []
        if self.r.random() < 0.015:
            return [self.deco() for _ in range(self.r.choice([6, 7, 8, 9, 10, 12, 16, 17]))]
        while self.r.random() < p and len(out) < 6:
            out.append(self.deco())
            p = max(p, 0.5)
        return out

    # declarations
    def rtype(self):
        r = self.r
        return r.choice(["Microsoft.Storage/storageAccounts", "Microsoft.Network/virtualNetworks/subnets", "a/b", "x", "Custom.RP/t-y.p_e",
                         "Microsoft.Web/sites/config", "A.B/c/d/e/f", "Microsoft.Authorization/roleAssignments", "Microsoft.Resources/deployments", "Microsoft.KeyVault/vaults/secrets", "Microsoft.Authorization/locks",
                         "Microsoft.Compute/virtualMachines/extensions", "microsoft.insights/components", "Microsoft.Resources/resourceGroups", "core/Secret", "apps/Deployment"])

    def version(self):
        return self.r.choice(["2021-01-01", "2023-05-01-preview", "1", "v1.0", "2015-01-01-alpha.1", "2014-04-01", "2022-09-01", "2020-06-01-privatepreview", "2019-06-01-beta", "v1", "latest", "0"])

    def body(self, d, wrap=True, maxchild=1):
        """body of a resource: object, condition or loop around it, perhaps with a nested resource"""
        r = self.r
        o = self.obj(d, loops=True, n=r.choice([0, 1, 2, 3]) if r.random() > 0.1 else r.choice([5, 6, 7, 8, 9, 12, 17]))
        ents = [e for e in o[1] if not (e[1] == "depends_on")]
        if maxchild and d > 0 and r.random() < self.w.get("child", 0.2):
            c = self.child(d - 1)
            pos = r.randint(0, len(ents))
            ents = ents[:pos] + [("child", c)] + ents[pos:]
            o = ("obj", ents, ["nl"] * max(0, len(ents) - 1))
        else:
            o = ("obj", ents, self.seps(len(ents) - 1))
        if not wrap:
            return o
        k = r.random()
        if k < self.w.get("wrap", 0.4) / 2:
            return ("deploy", self.value(d), o)
        if k < self.w.get("wrap", 0.4):
            return self.loop(d, body=o, cond=True if r.random() < 0.4 else None)
        return o

    def child(self, d):
        r = self.r
        b = self.body(d)
        if r.random() < 0.15 and b[0] == "obj":
            ents = list(b[1])
            ents.insert(r.randint(0, len(ents)), own_deps(r, self))
            b = ("obj", ents, ["nl"] * (len(ents) - 1))
        return Resource(self.name() if r.random() < 0.75 else r.choice(["c", "child", "default"]), r.choice(["subnets", "blobServices", "a/b", "default", "x.y-z", "fileServices", "containers", "secrets", "accessPolicies", "config", "blobServices/containers", "databases"]),
                        self.version() if r.random() < 0.3 else None, b, r.random() < 0.2, nested=True)

    def modref(self):
        r = self.r
        comp = lambda chars, lo=1, hi=10: "".join(r.choice(chars) for _ in range(r.randint(lo, hi)))
        W = "abcXYZ019_"
        seg = lambda extra="": comp(W + "-" + extra, 1, 8)
        path = lambda extra="": "/".join(seg(extra) for _ in range(r.randint(1, 4)))
        tag = comp(W + ".-", 1, 8)
        if r.random() < 0.4:
            tag = r.choice(["latest", "1.0", "v1.0.0", "1.0.0-preview", "0", "0.1.0", "1.0.0", "v1", "public", "2021-10-01", "main", "1"])
        seg0, path0 = seg, path
        path = lambda extra="": path0(extra) if r.random() < 0.6 else r.choice(  # noqa: E731
            ["bicep/storage/account", "bicep/modules/network/vnet", "avm/res/storage/storage-account", "avm/ptn/lz/sub-vending", "samples/hello-world", "bicep", "modules", "storage", "bicep/bicep/x", "public/a/b",
             "br", "ts", "network/virtual-network", "compute/custom-image-vm", "mcr", "latest", "a", "a/a/a", "deployment-scripts/import-acr", "azurecr", "specs"])
        k = r.randrange(7)
        if k == 0 and r.random() < 0.4:
            p = r.choice(["./modules/storage.bicep", "../shared/modules/vnet.bicep", "./main.bicep", "main.bicep", "main.json", "./a b/c.bicep", "./mod.BICEP", "./mod.bicepparam", "./.hidden/m.bicep", "./a//b.bicep",
                          "./br/public.bicep", "modules/ts/spec.bicep", "./x.y.z/m.bicep", "./br.bicep", "brx/a.bicep", "tsx.bicep", "~/m.bicep", "C:/m.bicep", ".bicep", "./m.json", "./m.arm.json"])
            return (p, "local", {"full": p, "path": p})
        if k == 0:
            p = r.choice(["./", "../", "", "/abs/", "sub dir/", "a/../b/"]) + r.choice(["m", "main", "br", "ts", "mod-x", "ü"]) + r.choice([".bicep", "", ".json"])
            return (p, "local", {"full": p, "path": p})
        if k == 1:
            p = path(".")
            return (f"br:mcr.microsoft.com/{p}:{tag}", "bicep_registry", {"full": f"mcr.microsoft.com/{p}:{tag}", "registry_name": "mcr.microsoft.com", "path": p, "tag": tag, "public": True})
        if k == 2:
            n, p = comp("abcxyz019", 1, 10) if r.random() < 0.7 else r.choice(["contoso", "exampleregistry", "mcr", "public", "azurecr", "acr01", "contosoregistry2"]), path(".")
            return (f"br:{n}.azurecr.io/{p}:{tag}", "bicep_registry", {"full": f"{n}.azurecr.io/{p}:{tag}", "registry_name": n, "path": p, "tag": tag, "public": False})
        if k in (3, 4):
            al, p = r.choice(["public", "public", "Public", "publicx", "my-alias", "ContosoRegistry", "CoreModules", "contoso", "br", "mcr", "default", "PUBLIC", "notpublic", seg()]), path(".")
            return (f"br/{al}:{p}:{tag}", "bicep_registry_alias", {"full": f"{al}:{p}:{tag}", "alias": al, "path": p, "tag": tag, "public": al == "public"})
        if k == 5:
            sub = r.choice(["11111111-1111-1111-1111-111111111111", "0a1B2c3D-ffff-4ABC-8def-0123456789ab"])
            rg, n = comp(W + "-._()", 1, 10), comp(W + "-.()", 1, 10)
            if r.random() < 0.4:
                rg, n = r.choice(["templateSpecsRG", "template-specs", "rg", "my.rg(1)", "RG", "rg-"]), r.choice(["storageSpec", "storage-spec", "spec", "MySpec", "vnet.spec", "public"])
            return (f"ts:{sub}/{rg}/{n}:{tag}", "template_spec", {"full": f"{sub}/{rg}/{n}:{tag}", "subscription_id": sub, "resource_group_id": rg, "name": n, "version": tag})
        al, p = r.choice(["public", "my-specs", "ContosoSpecs", "CoreSpecs", "ts", "default", seg()]), r.choice([comp(W + "-.()", 1, 10), comp(W + "-.()", 1, 10), "storageSpec", "vnet-spec", "bicep.spec", "public"])
        return (f"ts/{al}:{p}:{tag}", "template_spec_alias", {"full": f"{al}:{p}:{tag}", "alias": al, "path": p, "tag": tag})

    def typeval(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.35:
            return r.choice([("id", r.choice(["string", "int", "bool", "myType"])), ("str", self.word()), self.int(), ("bool", True)])
        if k < 0.8:
            ents, ks = [], set()
            for _ in range(r.choice([0, 1, 2, 3])):
                kk = self.key()
                if kk not in ks:
                    ks.add(kk)
                    ents.append(("pair", kk, self.typeval(d - 1), r.random() < 0.3))
            return ("obj", ents, ["nl"] * max(0, len(ents) - 1))
        return ("arr", [self.typeval(d - 1) for _ in range(r.choice([0, 1, 2, 3]))] if True else [], ["nl"] * 3)

    def decl(self, kind, name, d=None):
        r = self.r
        d = self.depth if d is None else d
        if kind == "scope":
            return Scope(r.choice(["resourceGroup", "subscription", "managementGroup", "tenant"]))
        if kind == "import":
            k = r.random()
            path = r.choice(["./a.bicep", "mod.bicep", "../x/y.bicep", "br/public:a/b:1.0", "az"])
            if k < 0.3:
                return Import(None, name)
            if k < 0.45:
                return Import([(name, r.choice([None, "al"]))], path, False)
            return Import([(name + ("" if i == 0 else f"_{i}"), r.choice([None, None, self.name()])) for i in range(r.randint(1, 4))], path)
        if kind == "extension":
            return Extension(name, self.obj(d) if r.random() < 0.5 else None, self.name() if r.random() < 0.4 else None)
        if kind == "metadata":
            return Metadata(name, self.raw())
        if kind == "param":
            return Param(name, self.typ(), self.value(d) if r.random() < 0.7 else None, r.random() < 0.15, self.decos())
        if kind == "var":
            v = self.loop(d) if r.random() < self.w.get("loop", 0.1) else self.value(d)
            t = self.typ() if r.random() < 0.15 else None
            return Var(name, v, t, r.random() < 0.15, self.decos(0.1))
        if kind == "output":
            v = self.loop(d) if r.random() < self.w.get("loop", 0.1) else self.value(d)
            return Output(name, self.typ(), v, r.random() < 0.1, self.decos(0.2))
        if kind == "resource":
            return Resource(name, self.rtype(), self.version(), self.body(d), r.random() < 0.15, self.decos(0.15))
        if kind == "module":
            return Module(name, self.modref(), self.body(d, maxchild=0), self.decos(0.15))
        if kind == "type":
            if r.random() < 0.4:
                ms = [r.choice([("str", self.word()), ("id", self.name()), self.int()]) for _ in range(r.randint(2, 5))]
            else:
                ms = [self.typeval(d)]
            return TypeDecl(name, ms, self.decos(0.2))
        if kind == "func":
            args, ns = [], set()
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                n = self.name()
                if n not in ns:
                    ns.add(n)
                    args.append((n, self.typ(1)))
            return Func(name, args, self.typ(1), self.value(d), self.decos(0.2))
        raise AssertionError(kind)

    KINDS = ["scope", "import", "extension", "metadata", "param", "var", "output", "resource", "module", "type", "func"]

    def doc(self, n=None, kinds=None, d=None):
        r = self.r
        n = r.choice([1, 2, 3, 4, 6, 9]) if n is None else n
        decls, used = [], set()
        for i in range(n):
            kind = r.choice(kinds or self.KINDS[1:] + ["var", "param", "resource"])
            decls.append(self.unique(kind, used, d))
        if kinds is None and r.random() < 0.3:
            decls.insert(r.randint(0, len(decls)), Scope(r.choice(["resourceGroup", "subscription", "managementGroup", "tenant"])))
        return Doc(decls)

    def unique(self, kind, used, d=None):
        """a declaration whose reported names are not in used yet"""
        for tries in itertools.count():
            if tries == 60:
                # the few names are used up
                self.name = lambda: G.name(self) + self.r.choice("abcdefgh")
            name = self.name()
            if kind == "import":
                name = self.r.choice([name, "*", "az", "kubernetes@1.0"]) if self.r.random() < 0.2 else name
                if not name.replace("_", "a").isalnum() and name != "*":
                    dcl = Import(None, name)
                elif name == "*":
                    dcl = Import([("*", self.name() if self.r.random() < 0.9 else None)], "./x.bicep", False)
                else:
                    dcl = self.decl(kind, name, d)
            else:
                dcl = self.decl(kind, name, d)
            dcl.emit(Emitter())
            names = [(s, n) for s, n, _, _ in dcl.entries()]
            if len(set(names)) == len(names) and not any(x in used for x in names):
                used.update(names)
                return dcl


# --- one dimension of a document at a time, large ------------------------------------
COUNTS = [5, 7, 9, 10, 11, 13, 16, 17, 21, 26, 32, 33, 40, 64, 65, 100, 101, 128, 150, 256, 257]


def chars(r, n, alpha="abcXYZ019_"):
    """n characters, no two places alike for a reader that drops or reorders some"""
    return "".join(r.choice(alpha) for _ in range(n))


def large_ref(r, n):
    """a module reference one of whose components is n characters (or segments) long"""
    W = "abcXYZ019_"
    comp = lambda extra="": chars(r, n, W + extra)      # noqa: E731
    sub = "11111111-2222-3333-4444-555555555555"
    k = r.randrange(11)
    path, tag, name, al, rg = "a/b", "1.0", "reg", "al", "rg"
    if k in (0, 1):
        path = comp("-.") if k == 0 else "/".join(f"s{j}" for j in range(n))
        ref = ("br:mcr.microsoft.com/" + path + ":" + tag, "bicep_registry", {"full": f"mcr.microsoft.com/{path}:{tag}", "registry_name": "mcr.microsoft.com", "path": path, "tag": tag, "public": True})
    elif k in (2, 3):
        name, tag = (chars(r, n, "abcxyz019"), tag) if k == 2 else (name, comp("-."))
        ref = (f"br:{name}.azurecr.io/{path}:{tag}", "bicep_registry", {"full": f"{name}.azurecr.io/{path}:{tag}", "registry_name": name, "path": path, "tag": tag, "public": False})
    elif k in (4, 5):
        al, path = (comp("-"), path) if k == 4 else (al, "/".join(chars(r, 1 + j % 5, W + "-.") for j in range(n)))
        ref = (f"br/{al}:{path}:{tag}", "bicep_registry_alias", {"full": f"{al}:{path}:{tag}", "alias": al, "path": path, "tag": tag, "public": al == "public"})
    elif k in (6, 7):
        rg, name = (comp("-._()"), name) if k == 6 else (rg, comp("-.()"))
        ref = (f"ts:{sub}/{rg}/{name}:{tag}", "template_spec", {"full": f"{sub}/{rg}/{name}:{tag}", "subscription_id": sub, "resource_group_id": rg, "name": name, "version": tag})
    elif k in (8, 9):
        al, name, tag = (comp("-"), name, tag) if k == 8 else (al, comp("-.()"), comp("-."))
        ref = (f"ts/{al}:{name}:{tag}", "template_spec_alias", {"full": f"{al}:{name}:{tag}", "alias": al, "path": name, "tag": tag})
    else:
        p = "./" + "/".join(chars(r, 1 + j % 6, W + "-. ") for j in range(n)) + "/m.bicep"
        ref = (p, "local", {"full": p, "path": p})
    return ref


def large(r, what=None, n=None):
    """(what, document) with n of something, the rest of it small"""
    what = what or r.choice(list(LARGE))
    n = n or r.choice(COUNTS)
    g = G(r, {"lam": 0.2, "ml": 0.2}, 1)
    v = g.value(0)
    val = lambda x: Doc([Var("first", g.value(0)), r.choice([lambda: Var("x", x), lambda: Param("x", ("name", "any"), x), lambda: Output("x", ("name", "any"), x),                     # noqa: E731
                                                              lambda: Resource("x", "A/b", "1", ("obj", [("pair", "k", x, False)], [])), lambda: Module("x", ("./m", "local", {"full": "./m", "path": "./m"}), ("obj", [("pair", "params", ("obj", [("pair", "k", x, False)], []), False)], [])),
                                                              lambda: Func("x", [], ("name", "any"), x)])(), Var("last", g.value(0))])
    return what, LARGE[what](r, g, n, v, val)


def _nested_resources(r, g, n):
    inner = None
    for j in reversed(range(n)):
        ents = [("pair", f"k{j}", g.value(0), False), ("pair", "z", ("int", j), False)]
        if inner:
            ents.insert(r.randint(0, 2), ("child", inner))
        o = ("obj", ents, ["nl"] * (len(ents) - 1))
        b = o if r.random() < 0.6 else ("deploy", ("id", f"c{j}"), o) if r.random() < 0.5 else ("loop", f"i{j}", None, ("id", "xs"), None, o)
        inner = Resource(f"r{j}", "A/b" if j == 0 else f"t{j}", f"v{j}" if j == 0 or r.random() < 0.5 else None, b, r.random() < 0.1, nested=j > 0)
    return Doc([Var("first", g.value(0)), inner, Var("last", g.value(0))])


def _accessors(r, g, n):
    # properties group to the right, with the indices in front of them
    n = min(n, 65)
    x, j = None, n
    while j > 0:
        last = ("id", f"p{j}") if j > 1 else r.choice([("id", "a"), ("call", "f", None, []), ("call", "reference", None, [("id", "x")])])
        j -= 1
        m = r.choice([0, 0, 1, 2])
        for _ in range(m if j else 1):
            last = ("idx", last, r.choice([("int", j), ("str", f"k{j}")]), r.random() < 0.2)
            j -= 1
        x = last if x is None else ("bin", r.choice([".", ".", "::", ".?"]), last, x)
    return x


def _many(g, r, n, used=None):
    used = set()
    return Doc([g.unique(r.choice(G.KINDS[1:]), used, 0) for _ in range(n)])


def _lams(r, n):
    x = ("id", "e")
    for j in range(min(n, 17)):
        x = ("call", "map", None, [("id", f"xs{j}"), ("lam", [f"e{j}"] + [f"i{j}"] * (j % 2), j % 2 == 1, x)])
    return x


def _loops(r, n):
    x = ("obj", [("pair", "v", ("id", "e"), False)], [])
    for j in range(min(n, 17)):
        x = ("obj", [("pair", f"k{j}", ("loop", f"e{j}", f"i{j}" if j % 2 else None, ("id", f"xs{j}"), ("id", f"c{j}") if j % 3 == 0 else None, x), False), ("pair", "z", ("int", j), False)], ["nl"])
    return x


def _brackets(r, n):
    x = ("int", 1)
    for j in range(min(n, 60)):
        x = ("arr", [("int", j), x, ("str", f"s{j}")], ["nl", "nl"]) if r.random() < 0.5 else ("obj", [("pair", f"a{j}", ("int", j), False), ("pair", f"k{j}", x, False), ("pair", "z", ("null",), False)], ["nl", "nl"])
    return x


LARGE = {
    "items": lambda r, g, n, v, val: val(("arr", [g.value(0) if r.random() < 0.8 else g.value(1) for _ in range(n)], [r.choice([",", "nl"])] * (n - 1))),
    "keys": lambda r, g, n, v, val: val(("obj", [("pair", f"k{j}" if r.random() < 0.8 else f"'k-{j}'", g.value(0), False) for j in range(n)], ["nl"] * (n - 1))),
    "arguments": lambda r, g, n, v, val: val(("call", r.choice(["concat", "union", "format", "f", "my_f", "guid"]), None, [g.value(0) for _ in range(n)])),
    "list arguments": lambda r, g, n, v, val: val(("facc", ("id", "stg"), r.choice(["listKeys", "list", "getSecret"]), [g.value(0) for _ in range(n)])),
    "lambda variables": lambda r, g, n, v, val: val(("call", "reduce", None, [("id", "xs"), ("lam", [f"p{j}" for j in r.sample(range(n), n)], True, g.value(1))])),
    "nested lambdas": lambda r, g, n, v, val: val(_lams(r, n)),
    "nested loops": lambda r, g, n, v, val: val(_loops(r, n)),
    "brackets": lambda r, g, n, v, val: val(_brackets(r, n)),
    "accessors": lambda r, g, n, v, val: val(_accessors(r, g, n)),
    "name": lambda r, g, n, v, val: Doc([Param(chars(r, 1, "abcXYZ_") + chars(r, n), ("name", "t" + chars(r, n)), ("id", "d" + chars(r, n))), Var("v" + chars(r, n), ("call", "f" + chars(r, n), None, [("id", chars(r, 1, "xyz") + chars(r, n))])),
                                         Output("o" + chars(r, n), ("array", ("name", "u" + chars(r, n))), ("bin", ".", ("id", "q" + chars(r, n)), ("id", "w" + chars(r, n)))), Func("g" + chars(r, n), [("a" + chars(r, n), ("name", "int"))], ("name", "r" + chars(r, n)), ("int", 1), [Deco("e" + chars(r, n, "abcXYZ019"), False, None)]),
                                         Resource("s" + chars(r, n), "A/b", "1", ("loop", "l" + chars(r, n), "m" + chars(r, n), ("id", "xs"), None, ("obj", [("pair", "k" + chars(r, n), ("id", "h" + chars(r, n)), False)], [])))]),
    "resource type": lambda r, g, n, v, val: Doc([Resource("x", "/".join(chars(r, 1 + j % 9) for j in range(n)), "2020-01-01", ("obj", [], [])), Resource("y", chars(r, n) + "/" + chars(r, n, "abc.-_XYZ"), chars(r, n, "0123456789-.v"), ("obj", [], [])),
                                                  Resource("z", "A/b", "1", ("obj", [("child", Resource("c", "/".join(chars(r, 1 + j % 5) for j in range(n)), chars(r, n), ("obj", [], []), nested=True))], []))]),
    "child resources": lambda r, g, n, v, val: _nested_resources(r, g, min(n, 21)),
    "module reference": lambda r, g, n, v, val: Doc([Module(f"m{j}", large_ref(r, n), ("obj", [], [])) for j in range(4)]),
    "union members": lambda r, g, n, v, val: Doc([TypeDecl("t", [r.choice([("str", f"s{j}"), ("id", f"t{j}"), ("int", j)]) for j in range(n)]), Param("p", ("union", [("name", f"t{j}") if r.random() < 0.8 else ("array", ("name", f"t{j}")) for j in range(n)]), None, r.random() < 0.3)]),
    "object type": lambda r, g, n, v, val: Doc([TypeDecl("t", [("obj", [("pair", f"k{j}", r.choice([("id", f"t{j}"), ("str", f"s{j}"), ("int", j)]), r.random() < 0.4) for j in range(n)], ["nl"] * (n - 1))])]),
    "function parameters": lambda r, g, n, v, val: Doc([Func("f", [(f"p{j}", r.choice([("name", f"t{j}"), ("array", ("name", "string"))])) for j in r.sample(range(n), n)], ("name", "string"), g.value(1)), Var("after", v)]),
    "array type": lambda r, g, n, v, val: Doc([Param("x", _suffix(("name", "string"), min(n, 60))), Output("y", _suffix(("name", "t"), min(n, 60)), v)]),
    "decorators": lambda r, g, n, v, val: Doc([Param("x", ("name", "string"), None, False, [Deco("custom", False, ("int", j)) if j % 3 else Deco("description", j % 2 == 1, ("str", f"d{j}")) for j in range(n)]), Param("y", ("name", "int"))]),
    "imported names": lambda r, g, n, v, val: Doc([Import([(f"n{j}", f"a{j}" if r.random() < 0.4 else None) for j in range(n)], "./m.bicep"), Var("x", v)]),
    "declarations": lambda r, g, n, v, val: _many(g, r, n),
    "operators": lambda r, g, n, v, val: val(_ops(r, n)),
    "interpolations": lambda r, g, n, v, val: val(("str", "".join(f"-{j}-${{a{j}}}" for j in range(n)))),
    "lines of text": lambda r, g, n, v, val: val(("ml", "\n".join(f"line {j}" * (j % 3) for j in range(n)))),
}


def _equal(r, g):
    """a value that is a container of its own wherever it is written"""
    return r.choice([lambda: ("obj", [], []), lambda: ("arr", [], []), lambda: ("obj", [("pair", "a", ("int", 1), False)], []), lambda: ("arr", [("int", 1), ("id", "a")], ["nl"]), lambda: ("call", "f", None, [("id", "a")]), lambda: ("call", "resourceGroup", None, []),
                     lambda: ("bin", ".", ("id", "a"), ("id", "b")), lambda: ("idx", ("id", "a"), ("int", 0), False), lambda: ("bin", "+", ("int", 1), ("id", "a")), lambda: ("un", "-", ("int", 1)), lambda: ("obj", [("pair", "a", ("obj", [], []), False), ("pair", "b", ("arr", [("obj", [], [])], []), False)], ["nl"]),
                     lambda: ("cond", ("id", "a"), ("obj", [], []), ("obj", [], [])), lambda: g.of(r.choice(["arr", "obj", "call"]), 2)])()


def _equal_loops(r, g, n):
    x = ("loop", "i", r.choice([None, "j"]), _equal(r, g), _equal(r, g), ("obj", [("pair", "v", _equal(r, g), False)], []))
    return ("obj", [("pair", f"k{j}", x, False) for j in range(n)], ["nl"] * (n - 1))


LARGE.update({
    "equal items": lambda r, g, n, v, val: val((lambda x: ("arr", [x] * n, ["nl"] * (n - 1)))(("paren", _equal(r, g)))),
    "equal values": lambda r, g, n, v, val: val((lambda x: ("obj", [("pair", f"k{j}", x, False) for j in range(n)], ["nl"] * (n - 1)))(_equal(r, g))),
    "equal arguments": lambda r, g, n, v, val: val((lambda x: ("call", r.choice(["concat", "union", "f", "format"]), None, [x] * n))(_equal(r, g))),
    "equal decorators": lambda r, g, n, v, val: (lambda x: Doc([Param("x", ("name", "string"), None, False, [x] * n), Param("y", ("name", "string"), None, False, [x] * 2)]))(Deco(r.choice(["description", "allowed", "metadata", "custom"]), False, _equal(r, g))),
    "equal types": lambda r, g, n, v, val: (lambda t: Doc([Func("f", [(f"p{j}", t) for j in range(n)], t, v), Param("x", t), Output("y", t, v), Param("z", ("union", [t] * n))]))(r.choice([("array", ("name", "string")), ("union", [("name", "a"), ("name", "b")]), ("array", ("union", [("name", "a"), ("array", ("name", "b"))]))])),
    "equal loops": lambda r, g, n, v, val: val(_equal_loops(r, g, n)),
    "equal declarations": lambda r, g, n, v, val: (lambda x, b: Doc([r.choice([lambda: Var(f"x{j}", x), lambda: Output(f"x{j}", ("array", ("name", "t")), x), lambda: Param(f"x{j}", ("array", ("name", "t")), x), lambda: Resource(f"x{j}", "A/b", "1", b), lambda: Module(f"x{j}", ("br/a:b:c", "bicep_registry_alias", {"full": "a:b:c", "alias": "a", "path": "b", "tag": "c", "public": False}), b),
                                                                                          lambda: Extension(f"x{j}", b), lambda: Func(f"x{j}", [("a", ("array", ("name", "t")))], ("name", "t"), x)])() for j in range(n)]))(_equal(r, g), ("obj", [("pair", "a", _equal(r, g), False)], [])),
})


def _suffix(t, n):
    for _ in range(n):
        t = ("array", t)
    return t


def _ops(r, n):
    x = ("id", "z")
    for j in range(min(n, 64)):
        x = ("bin", r.choice(["+", "&&", "||", "==", "??", "-", "*", "<"]), ("id", f"a{j}"), x)
    return x
