"""Declarations: inventory (C01), decorators (C07), types and signatures (C08), resources (C09), module references (C10)."""
import itertools

from .. import tables as T
from ..common import *  # noqa: F403
from ..core import Check, Stream
from ..diff import diff
from .values import ASSUME, BODIES, COLLS, CONDS, TECH, style_of

KINDS = G.KINDS
MOD = ("./m.bicep", "local", {"full": "./m.bicep", "path": "./m.bicep"})
SCOPES = ["resourceGroup", "subscription", "managementGroup", "tenant"]


def small(kind, name, k=0):
    """a small declaration of a kind; k selects a variant"""
    v = k % 4
    if kind == "scope":
        return Scope(SCOPES[v])
    if kind == "import":
        return [Import([(name, None)], "./a.bicep"), Import([(name, "al"), (name + "_2", None)], "b.bicep"), Import([(name, None)], "./a.bicep", False), Import(None, name)][v]
    if kind == "extension":
        return [Extension(name), Extension(name, O(("k", N(1)))), Extension(name, None, "al"), Extension(name, O(), "al")][v]
    if kind == "metadata":
        return Metadata(name, ["m", "", "it\\'s", "${a}"][v])
    if kind == "param":
        return [Param(name, ("name", "string")), Param(name, ("name", "int"), N(0)), Param(name, ("array", ("name", "string")), None, True),
                Param(name, ("name", "object"), O(), False, [Deco("secure"), Deco("description", True, S("d"))])][v]
    if kind == "var":
        return [Var(name, N(0)), Var(name, ("arr", [], [])), Var(name, O(("k", I("a"))), ("name", "object")), Var(name, ("loop", "i", None, I("c"), None, I("i")), None, False, [Deco("export")])][v]
    if kind == "output":
        return [Output(name, ("name", "string"), I("a")), Output(name, ("name", "int"), N(0), True), Output(name, ("array", ("name", "int")), ("loop", "i", "x", I("c"), None, I("i"))),
                Output(name, ("name", "bool"), ("bool", False), False, [Deco("description", False, S("o"))])][v]
    if kind == "resource":
        return [res(name, O()), res(name, O(("name", S("n"))), [Deco("batchSize", False, N(1))]), Resource(name, "A/b", "1", O(("name", S("n"))), True),
                res(name, ("deploy", I("c"), ("obj", [("child", Resource("c", "s", None, O(), nested=True))], [])))][v]
    if kind == "module":
        return [Module(name, MOD, O()), Module(name, MOD, ("deploy", I("c"), O(("name", S("n"))))), Module(name, MOD, ("loop", "i", None, I("c"), None, O()), [Deco("batchSize", False, N(0))]),
                Module(name, ("br/public:a/b:1", "bicep_registry_alias", {"full": "public:a/b:1", "alias": "public", "path": "a/b", "tag": "1", "public": True}), O(("name", S("n"))))][v]
    if kind == "type":
        return [TypeDecl(name, [I("string")]), TypeDecl(name, [S("a"), S("b")]), TypeDecl(name, [("obj", [("pair", "k", I("string"), True)], [])]), TypeDecl(name, [O()], [Deco("sealed"), Deco("export", True)])][v]
    return [Func(name, [], ("name", "string"), S("")), Func(name, [("a", ("name", "int"))], ("name", "int"), I("a")), Func(name, [("a", ("name", "int")), ("b", ("array", ("name", "any")))], ("name", "bool"), ("bin", "==", I("a"), I("b")), [Deco("export")]),
            Func(name, [], ("array", ("name", "object")), ("arr", [], []))][v]


OWN = {"C01", "C09"}


def c01_combos(ctx, i):
    """every ordered pair and triple of kinds of declaration, same name for all"""
    n = len(KINDS)
    a, b, c = KINDS[i // n // n % n], KINDS[i // n % n], KINDS[i % n]
    ctx.seen("kind triples", f"{a} {b} {c}")
    used, decls = set(), []
    for j, k in enumerate((a, b, c)):
        name = "x" if k not in used else f"x{j}"
        if k == "scope" and k in used:
            continue
        used.add(k)
        decls.append(small(k, name, i + j * 7 + i // 13))
    judge(ctx, Doc(decls), ctx.rng, style_of(ctx.rng, 0.25), lines=bool(i % 2), accept=OWN)


def c01_names(ctx, i):
    """every name for every kind, alone and next to the other kinds of the same name"""
    name = WORDS[i // (len(KINDS) - 1) % len(WORDS)]
    kind = KINDS[1:][i % (len(KINDS) - 1)]
    ctx.seen("kind/name", f"{kind} {name}")
    judge(ctx, Doc([small(kind, name, j) for j in [i // 7 % 4]]), ctx.rng, accept=OWN)
    if i % 5 == 0:
        ds = [small(k, name, i // 5) for k in KINDS[1:]]
        ctx.rng.shuffle(ds)
        judge(ctx, Doc(ds), ctx.rng, style_of(ctx.rng), accept=OWN)


def c01_mix(ctx, i):
    r = ctx.rng
    g = G(r, None, r.choice([0, 1, 2, 3]))
    doc = g.doc()
    for d in doc.decls:
        ctx.seen("kinds", d.kind)
    judge(ctx, doc, r, style_of(r, 0.6), lines=bool(i % 2), accept=OWN)


def c01_many(ctx, i):
    r = ctx.rng
    n = r.choice([60, 150, 400]) if ctx.tier == "quick" else r.choice([100, 500, 1500])
    ks = KINDS[1:] if i % 3 else [r.choice(KINDS[1:])]
    decls = [small(r.choice(ks), f"n{j}" if i % 2 else f"n{'_' * (j % 7)}{j}", r.randrange(4)) for j in range(n)]
    decls.insert(r.randrange(n), Scope(r.choice(SCOPES)))
    judge(ctx, Doc(decls), r, style_of(r), accept=OWN, sample=f"{n} declarations, e.g. {decls[0].kind} {decls[0].name}")


def c01_similar(ctx, i):
    """names of one kind that folding, trimming, cutting or numbering would make equal"""
    r = ctx.rng
    base = r.choice(["a", "name", "fooBar", "x_1", "stg", "Ab", "n"])
    long = "q" * r.choice([15, 30, 31, 63, 64, 127, 128, 255, 256, 1000])
    pool = {base, base.lower(), base.upper(), base.capitalize(), base.swapcase(), "_" + base, "__" + base, base + "_", base + "__", base * 2, base + "0", base + "00", base + "1", base + "01", base + "10", base + "_0", base + "_1",
            base + "s", base + "_copy", long + "a", long + "b", long, long + "A", base[:1], base.replace("o", "0"), base.replace("l", "1"), "I" + base, "l" + base, base + "_" + base, base + "__" + base}
    names = sorted(pool)
    r.shuffle(names)
    names = names[:r.choice([2, 4, 10, 30])]
    kind = KINDS[1:][i % (len(KINDS) - 1)]
    ctx.seen("kinds with similar names", kind)
    decls = [small(kind, n, 0 if kind in ("import", "extension") else r.randrange(3)) for n in names]
    judge(ctx, Doc(decls), r, style_of(r, 0.3), lines=bool(i % 2), accept=OWN)


def c01_scope(ctx, i):
    """the target scope at every position, and no target scope"""
    s = SCOPES[i % 4]
    pos = i // 4 % 4
    others = [small(KINDS[1 + (i // 16 + j) % 10], f"n{j}", i + j) for j in range(3)]
    if i // 16 % 11 < 10:
        others.insert(pos, Scope(s))
    ctx.seen("scope/position", f"{s} {pos}")
    judge(ctx, Doc(others), ctx.rng, style_of(ctx.rng), accept={"C01"})


def c01_imports(ctx, i):
    """imports in all forms"""
    r = ctx.rng
    decls, used = [], set()
    for j in range(r.choice([1, 2, 4])):
        k = r.randrange(5)
        path = r.choice(["./a.bicep", "b.bicep", "../c.json", "br/public:a:1", "az"])
        nm = lambda: f"{r.choice(WORDS)}{len(used)}{r.choice('abc')}"  # noqa: E731
        if k == 0:
            n = f"ns{j}@1.0"
            decls.append(Import(None, n))
        elif k == 1:
            if "*" in used:
                continue
            used.add("*")
            decls.append(Import([("*", r.choice(WORDS))], path, r.random() < 0.3))
        elif k == 2:
            n = nm()
            used.add(n)
            decls.append(Import([(n, r.choice([None, r.choice(WORDS)]))], path, False))
        else:
            its = []
            for _ in range(r.choice([1, 2, 3, 12])):
                n = nm()
                if n not in used:
                    used.add(n)
                    its.append((n, r.choice([None, None, r.choice(WORDS)])))
            decls.append(Import(its, path))
        if r.random() < 0.4:
            decls.append(small("var", f"v{j}"))
    if not decls:
        decls = [small("import", "x", i)]
    judge(ctx, Doc(decls), r, style_of(r), lines=bool(i % 2), accept={"C01"})


def c01_empty(ctx, i):
    """documents that declare nothing"""
    r = ctx.rng
    s = wild(r)
    from ..render import _run
    text = "".join(_run(r, s, True) for _ in range(i % 5)) + r.choice(["", " ", "\t"])
    o = ctx.parse(text, bool(i % 2))
    ctx.ran(text or "(empty)")
    exp_ = Doc([]).expected([] if i % 2 else None)
    if not o.ok or diff(exp_, o.value):
        ctx.fail("a document without declarations must give the default scope only", text=text, actual=repr(o.value or o.error)[:500])


IMPORT_DUP = "import * as a from './a.bicep'\nimport * as b from './b.bicep'\n"
EXT_DUP = "extension k8s as a\nextension k8s as b\n"


def c01_known(ctx, i):
    """findings: imports (extensions) of the same original name under different aliases"""
    text = [IMPORT_DUP, EXT_DUP][i]
    sec = ["imports", "extensions"][i]
    o = ctx.parse(text)
    ctx.ran(text)
    if not o.ok:
        return ctx.fail("well-formed document rejected", text=text, error=str(o.error))
    got = o.value.get(sec, {})
    if [e.get("alias") for e in got.values()] == ["b"]:
        return ctx.known(["same-import-name", "same-extension-name"][i], "declarations of the same original name overwrite each other", text=text, actual=repr(o.value))
    if sorted(str(e.get("alias")) for e in got.values()) != ["a", "b"]:
        ctx.fail("declarations of the same original name are lost in another way than the known one", text=text, actual=repr(o.value))


# --- C07 ---------------------------------------------------------------------
DECO_TARGETS = ["param", "var", "output", "resource", "module", "type", "func"]
DARGS = [None, N(0), N(1), ("un", "-", N(5)), ("un", "-", N(0)), S(""), S("text"), ("ml", "a\nb"), ("bool", False), ("null",), ("arr", [], []), ("arr", [S("a"), N(0), ("null",)], ["nl", ","]), O(),
         O(("k", ("null",)), ("'l'", N(0))), I("x"), ("call", "f", None, [N(0)]), ("bin", "+", N(1), N(2)), S("it\\'s ${a}"), ("paren", ("un", "-", N(3))), N(2**63)]


def mkdeco(name, ns, arg):
    if name in T.DECOS:
        if not T.DECOS[name][1]:
            arg = None
        elif arg is None:
            arg = N(0)
        if name in ("allowed",) and arg[0] != "arr":
            arg = ("arr", [arg], [])
    return Deco(name, ns, arg)


ALLD = list(T.DECOS) + ["discriminator", "custom", "x1", "Secure"]


def target(kind, name, decos, k=0):
    d = small(kind, name, k)
    d.decorators = decos
    return d


C07OWN = {"C07"}


def c07_args(ctx, i):
    """every decorator with every kind of argument on every kind of declaration"""
    nd = len(ALLD)
    name, arg = ALLD[i % nd], DARGS[i // nd % len(DARGS)]
    decls = []
    for j, kind in enumerate(DECO_TARGETS):
        decls.append(target(kind, "x", [mkdeco(name, bool((i + j) % 2), arg)], i + j))
        if j % 2:
            decls.append(small(kind, "plain", 0))
    ctx.seen("decorator/argument", f"{name}/{DARGS.index(arg)}")
    judge(ctx, Doc(decls), ctx.rng, style_of(ctx.rng, 0.3), lines=bool(i % 2), accept=C07OWN)


def c07_pairs(ctx, i):
    """every ordered pair of decorators on neighbouring declarations"""
    r = ctx.rng
    a, b = ALLD[i // len(ALLD) % len(ALLD)], ALLD[i % len(ALLD)]
    da, db = mkdeco(a, i % 3 == 0, r.choice(DARGS)), mkdeco(b, i % 4 == 0, r.choice(DARGS))
    decls = [target(r.choice(DECO_TARGETS), "x", [da, db], i), target(r.choice(DECO_TARGETS), "y", [db], i + 1), small(r.choice(KINDS[1:]), "z", i), target(r.choice(DECO_TARGETS), "w", [da], i + 2)]
    ctx.seen("decorator pairs", f"{a} {b}")
    judge(ctx, Doc(decls), r, style_of(r, 0.5), lines=bool(i % 2), accept=C07OWN)


def c07_random(ctx, i):
    r = ctx.rng
    g = G(r, {"lam": 0.2}, r.choice([0, 1, 2]))
    decls = []
    for j in range(r.choice([1, 2, 4, 7])):
        kind = r.choice(DECO_TARGETS)
        n = r.choice([0, 0, 1, 1, 2, 3, 5, 9])
        ds = []
        for _ in range(n):
            k = r.random()
            if k < 0.6:
                ds.append(g.deco())
            else:
                ds.append(mkdeco(r.choice(ALLD), r.random() < 0.4, r.choice(DARGS)))
        decls.append(target(kind, f"n{j}", ds, r.randrange(4)))
    judge(ctx, Doc(decls), r, style_of(r, 0.7), lines=bool(i % 2), accept=C07OWN)


def c07_long(ctx, i):
    r = ctx.rng
    ds = [Deco("description", bool(j % 2), S(f"d{j}")) if j % 3 else Deco("custom", False, N(j)) for j in range(r.choice([15, 40, 120]))]
    judge(ctx, Doc([target("param", "x", ds), small("param", "y")]), r, style_of(r, 0.5), accept=C07OWN)


# --- C08 ---------------------------------------------------------------------
TNAMES = ["string", "int", "bool", "object", "array", "any", "secureString", "myType", "resource_", "type", "param", "_", "t1", "if", "as", "existing", "nullable", "union", "func",
          "String", "INT", "Bool", "Object", "Array", "Any", "STRING", "Int", "SecureString", "securestring", "secureObject", "integer", "boolean", "number", "float", "null_", "str", "list", "dict", "String_"]


def all_types(depth):
    base = [("name", n) for n in TNAMES[:4]]
    if depth == 0:
        return base
    sub = all_types(depth - 1)
    out = list(base)
    out += [("array", t) for t in sub]
    out += [("union", [a, b]) for a in sub[:: max(1, len(sub) // 7)] for b in sub[:: max(1, len(sub) // 7)]]
    out += [("union", [sub[0], sub[-1], sub[1]])]
    return out


TYPES = all_types(3)


def typed(ctx, t, i, nullable=False):
    k = i % 5
    if k == 0:
        return Param("x", t, None, nullable)
    if k == 1:
        return Param("x", t, I("d"), nullable)
    if k == 2:
        return Var("x", N(1), t, nullable)
    if k == 3:
        return Output("x", t, I("d"), nullable)
    return Func("x", [("a", t), ("b", ("name", "int")), ("c", t)], t, I("a"))


def c08_types(ctx, i):
    t = TYPES[i // 10 % len(TYPES)]
    ctx.seen("types", repr(t))
    judge(ctx, Doc([typed(ctx, t, i, bool(i // 5 % 2)), Param("after", ("name", "string"))]), ctx.rng, style_of(ctx.rng, 0.3), accept={"C08"})


def c08_random(ctx, i):
    r = ctx.rng
    g = G(r, None, 1)

    def typ(d):
        k = r.random()
        if d <= 0 or k < 0.25:
            return ("name", r.choice(TNAMES))
        if k < 0.6:
            return ("array", typ(d - 1))
        return ("union", [typ(d - 1) for _ in range(r.randint(2, 4))])

    decls = [typed(ctx, typ(r.choice([1, 3, 5])), r.randrange(5), r.random() < 0.3)]
    decls += [Func("f", [(f"{r.choice(WORDS)}{j}", typ(2)) for j in range(r.choice([0, 1, 2, 5, 12]))], typ(3), g.value(1))]
    decls += [TypeDecl("t", [g.typeval(r.choice([1, 2, 3]))]), TypeDecl("u", [r.choice([S(r.choice(WORDS)), I(r.choice(TNAMES)), N(j)]) for j in range(r.choice([2, 3, 9]))])]
    judge(ctx, Doc(decls), r, style_of(r, 0.4), accept={"C08"})


def c08_deep(ctx, i):
    r = ctx.rng
    t = ("name", "string")
    for j in range(r.choice([10, 30, 60])):
        t = ("array", t) if (r.random() < 0.7 or i % 2) else ("union", [t, ("name", f"t{j}")])
    judge(ctx, Doc([typed(ctx, t, i)]), r, accept={"C08"})


def c08_members(ctx, i):
    """unions of a custom type: members in order; object shapes with nullable marks"""
    r = ctx.rng
    pool = [S("a"), S("b"), S("a|b"), S(" | "), S(""), I("string"), I("int"), N(0), N(1), N(42), S("it\\'s"), S("1"), ("null",), ("null",), ("bool", True), ("bool", False), S("null"), I("null_")]
    ms = [r.choice(pool) for _ in range(r.choice([2, 2, 3, 4, 8]))]
    ents = [("pair", r.choice([f"k{j}", f"'k-{j}'"]), r.choice([I("string"), S("lit"), N(j), ("obj", [("pair", "n", I("int"), True)], []), ("arr", [I("t")], [])]), r.random() < 0.4) for j in range(r.choice([0, 1, 3, 6]))]
    judge(ctx, Doc([TypeDecl("u", ms), TypeDecl("o", [("obj", ents, ["nl"] * max(0, len(ents) - 1))]), Param("p", ("name", "o"), None, bool(i % 2))]), r, style_of(r, 0.4), accept={"C08"})


# --- C09 ---------------------------------------------------------------------
RTYPES = ["Microsoft.Storage/storageAccounts", "Microsoft.Network/virtualNetworks/subnets", "a/b", "x", "Custom.RP/t-y.p_e", "A.B/c/d/e/f/g", "microsoft.x/y~z", "M/ü", "A/b/", "/A/b", "A//b", "A.B/C", "a.b/c ", "MICROSOFT.Storage/STORAGEACCOUNTS", "Microsoft.Storage", "A/b/."]
VERSIONS = ["2021-01-01", "2023-05-01-preview", "1", "v1.0", "latest", "2015-01-01-alpha.1", "0", "2021-01-01/", "2021-01-01-PREVIEW", "v1/x", "1 ", "."]
CTYPES = ["subnets", "blobServices", "a/b", "default", "x.y-z", "s", "a/b/", "/s", "S"]
WRAPS = ["plain", "condition", "loop", "loop condition", "loop index"]


def wrap(kind, o, k=0):
    if kind == "plain":
        return o
    if kind == "condition":
        return ("deploy", CONDS[1 + k % (len(CONDS) - 1)], o)
    return ("loop", "i", "x" if kind == "loop index" else None, COLLS[k % len(COLLS)], CONDS[1 + k % (len(CONDS) - 1)] if kind == "loop condition" else None, o)


def nest(levels, r, names=None, k=0):
    """levels: [(wrap, position of the child, version, existing)] from the outside in"""
    inner = None
    for j in reversed(range(len(levels))):
        w, pos, ver, ex = levels[j]
        ents = [("pair", key, val, False) for key, val in (("name", S(f"n{j}")), ("'p-q'", O(("k", N(j)), ("l", ("arr", [], [])))), ("z", ("null",)))]
        ents = ents[: (k + j) % 4]
        if inner is not None:
            pos = min(pos, len(ents))
            ents = ents[:pos] + [("child", inner)] + ents[pos:]
        o = ("obj", ents, ["nl"] * max(0, len(ents) - 1))
        name = names[j] if names else f"r{j}"
        if j == 0:
            return Resource(name, r.choice(RTYPES), ver or "2020-01-01", wrap(w, o, k), ex)
        inner = Resource(name, CTYPES[(k + j) % len(CTYPES)], ver, wrap(w, o, k + j), ex, nested=True)


def c09_wraps(ctx, i):
    """nested resources in every combination of wrappers for up to three levels, at every place of the body"""
    r = ctx.rng
    n = len(WRAPS)
    ws = [WRAPS[i % n], WRAPS[i // n % n], WRAPS[i // n // n % n]]
    k = i // n // n // n
    levels = [(w, (k + j) % 4, VERSIONS[(k + j) % len(VERSIONS)] if (k + j) % 3 == 0 else None, (k + j) % 5 == 0) for j, w in enumerate(ws)]
    levels = levels[: 3 if k % 2 == 0 else 2]
    ctx.seen("wrappers", "/".join(w for w, *_ in levels))
    d = nest(levels, r, k=i)
    judge(ctx, Doc([small("var", "before", i), d, res("after", O(("name", S("a"))))]), r, style_of(r, 0.3), lines=bool(i % 2), accept={"C09"})


def c09_random(ctx, i):
    r = ctx.rng
    names = r.sample(WORDS, 6)
    depth = r.choice([1, 2, 3, 4, 6])
    levels = [(r.choice(WRAPS), r.randrange(4), r.choice([None, None, r.choice(VERSIONS)]), r.random() < 0.25) for _ in range(depth)]
    d1 = nest(levels, r, names, r.randrange(1000))
    levels2 = [(r.choice(WRAPS), r.randrange(4), None, False) for _ in range(r.choice([1, 2]))]
    d2 = nest(levels2, r, [names[0] + "x", names[1]], r.randrange(1000))
    ds = [d1, d2, small("module", "m", i)]
    r.shuffle(ds)
    judge(ctx, Doc(ds), r, style_of(r, 0.4), lines=bool(i % 2), accept={"C09"})


def c09_types(ctx, i):
    """resource types, versions and flags"""
    r = ctx.rng
    comp = lambda: "".join(r.choice("abcXYZ019._-") for _ in range(r.randint(1, 9)))  # noqa: E731
    t = RTYPES[i % len(RTYPES)] if i % 2 else "/".join(comp() for _ in range(r.randint(1, 5)))
    v = VERSIONS[i // 3 % len(VERSIONS)] if i % 3 else comp()
    k = i % 4
    body = [BODIES[1], BODIES[0], ("deploy", CONDS[1 + i % (len(CONDS) - 1)], BODIES[2]), ("loop", "i", None, COLLS[i % len(COLLS)], CONDS[i % len(CONDS)], BODIES[1])][k]
    d = Resource("x", t, v, body, bool(i // 4 % 2), [Deco("description", False, S("d"))] if i % 7 == 0 else ())
    judge(ctx, Doc([d, small("resource", "y", i)]), r, style_of(r, 0.3), accept={"C09"})


def c09_bodies(ctx, i):
    """random bodies with nested resources: everything else in the body stays"""
    r = ctx.rng
    g = G(r, {"child": 0.8, "wrap": 0.5, "lam": 0.2, "ml": 0.5}, r.choice([1, 2, 3]))
    used = set()
    judge(ctx, Doc([g.unique("resource", used) for _ in range(2)]), r, style_of(r, 0.5), lines=bool(i % 2), accept={"C09"})


def c09_siblings(ctx, i):
    """several resources nested in different branches: one per body, parents with the same child name"""
    r = ctx.rng
    ds = []
    for j in range(r.choice([2, 3, 5])):
        ds.append(nest([(r.choice(WRAPS), r.randrange(3), None, False), (r.choice(WRAPS), r.randrange(3), r.choice([None, "9"]), False)], r, [f"p{j}", "same"], i + j))
    judge(ctx, Doc(ds), r, style_of(r, 0.3), lines=bool(i % 2), accept={"C09"})


SIB = "resource p 'A/b@1' = {\n  name: 'n'\n  resource c1 's' = {\n    name: 'x'\n  }\n  resource c2 't' = {\n    name: 'y'\n  }\n}\n"


def c09_known(ctx, i):
    """finding: several nested resources directly in one body"""
    o = ctx.parse(SIB)
    ctx.ran(SIB)
    if not o.ok:
        return ctx.fail("well-formed document rejected", text=SIB, error=str(o.error))
    names = list(o.value.get("resources", {}))
    if sorted(names) == ["p", "p__c2"]:
        return ctx.known("sibling-children", "only the last of several nested resources of one body is reported", text=SIB, actual=repr(o.value))
    if sorted(names) != ["p", "p__c1", "p__c2"]:
        ctx.fail("several nested resources of one body are lost in another way than the known one", text=SIB, actual=repr(o.value))


OWNDEP = "resource p 'A/b@1' = {\n  resource c 'd' = {\n    depends_on: 'x'\n  }\n}\n"


def c09_known2(ctx, i):
    """finding: a property named depends_on of a nested resource that is no array"""
    o = ctx.parse(OWNDEP)
    ctx.ran(OWNDEP)
    if not o.ok:
        if "has no attribute 'append'" in str(o.error):
            return ctx.known("depends-on-value", "a nested resource with a property depends_on that is no array is rejected", text=OWNDEP)
        return ctx.fail("a nested resource with a property depends_on that is no array is rejected in another way than the known one", text=OWNDEP, error=str(o.error))
    if list(o.value.get("resources", {})) != ["p", "p__c"]:
        ctx.fail("a nested resource with a property depends_on that is no array is lost", text=OWNDEP, actual=repr(o.value))


# --- C10 ---------------------------------------------------------------------
CH_NAME = "abcXYZ019_-"


def _detail(ref):
    return Module("m", ref, O(("name", S("n"))))


def c10_valid(ctx, i):
    r = ctx.rng
    g = G(r)
    ds, used = [], 0
    for j in range(4):
        m = Module(f"m{j}", g.modref(), [O(("name", S("n"))), ("deploy", I("c"), O()), ("loop", "i", None, I("c"), None, O())][j % 3])
        ctx.seen("reference kinds", m.ref[1])
        ds.append(m)
    judge(ctx, Doc(ds), r, accept={"C10"})
    # joined again the components give back the reference
    o = ctx.parse(render(Doc(ds).tokens(), r)[0])
    if not o.ok:
        return
    for m in ds:
        got = o.value.get("modules", {}).get(m.name)
        if not got or got["type"] == "local":
            continue
        d = got["detail"]
        try:
            j = {"bicep_registry": lambda: "br:" + (d["registry_name"] + ("" if d["public"] else ".azurecr.io") + "/" + d["path"] + ":" + d["tag"]),
                 "bicep_registry_alias": lambda: f"br/{d['alias']}:{d['path']}:{d['tag']}",
                 "template_spec": lambda: f"ts:{d['subscription_id']}/{d['resource_group_id']}/{d['name']}:{d['version']}",
                 "template_spec_alias": lambda: f"ts/{d['alias']}:{d['path']}:{d['tag']}"}[got["type"]]()
        except (KeyError, TypeError) as e:
            ctx.fail(f"components missing: {e!r}", text=m.ref[0], actual=repr(got))
            continue
        if j != m.ref[0]:
            ctx.fail(f"components do not give back the reference: {j}", text=m.ref[0], actual=repr(got))


SLASHES = {"br:mcr.microsoft.com/{0}:t", "br:reg.azurecr.io/x/{0}/y:t", "br/al:{0}:t", "ts/al:{0}:t"}


def c10_chars(ctx, i):
    """every character a component allows, at its start, middle and end"""
    sub = "11111111-1111-1111-1111-111111111111"
    W = "abzABZ019_"
    specs = []
    for c in W + "-.":
        specs.append(("br:mcr.microsoft.com/{0}:t", "bicep_registry", lambda p: {"full": f"mcr.microsoft.com/{p}:t", "registry_name": "mcr.microsoft.com", "path": p, "tag": "t", "public": True}, c))
        specs.append(("br:reg.azurecr.io/x/{0}/y:t", "bicep_registry", lambda p: {"full": f"reg.azurecr.io/x/{p}/y:t", "registry_name": "reg", "path": f"x/{p}/y", "tag": "t", "public": False}, c))
        specs.append(("br:reg.azurecr.io/p:{0}", "bicep_registry", lambda p: {"full": f"reg.azurecr.io/p:{p}", "registry_name": "reg", "path": "p", "tag": p, "public": False}, c))
        specs.append(("br/al:{0}:t", "bicep_registry_alias", lambda p: {"full": f"al:{p}:t", "alias": "al", "path": p, "tag": "t", "public": False}, c))
        specs.append(("ts/al:{0}:t", "template_spec_alias", lambda p: {"full": f"al:{p}:t", "alias": "al", "path": p, "tag": "t"}, c))
        specs.append(("br/public:x:{0}", "bicep_registry_alias", lambda p: {"full": f"public:x:{p}", "alias": "public", "path": "x", "tag": p, "public": True}, c))
        specs.append(("ts:%s/rg/n:{0}" % sub, "template_spec", lambda p: {"full": f"{sub}/rg/n:{p}", "subscription_id": sub, "resource_group_id": "rg", "name": "n", "version": p}, c))
        specs.append(("ts/al:n:{0}", "template_spec_alias", lambda p: {"full": f"al:n:{p}", "alias": "al", "path": "n", "tag": p}, c))
    for c in W + "-":
        specs.append(("br/{0}:p:t", "bicep_registry_alias", lambda p: {"full": f"{p}:p:t", "alias": p, "path": "p", "tag": "t", "public": p == "public"}, c))
        specs.append(("ts/{0}:n:t", "template_spec_alias", lambda p: {"full": f"{p}:n:t", "alias": p, "path": "n", "tag": "t"}, c))
    for c in "abzABZ019":
        specs.append(("br:{0}.azurecr.io/p:t", "bicep_registry", lambda p: {"full": f"{p}.azurecr.io/p:t", "registry_name": p, "path": "p", "tag": "t", "public": False}, c))
    for c in W + "-.()":
        specs.append(("ts:%s/{0}/n:t" % sub, "template_spec", lambda p: {"full": f"{sub}/{p}/n:t", "subscription_id": sub, "resource_group_id": p, "name": "n", "version": "t"}, c))
        specs.append(("ts:%s/rg/{0}:t" % sub, "template_spec", lambda p: {"full": f"{sub}/rg/{p}:t", "subscription_id": sub, "resource_group_id": "rg", "name": p, "version": "t"}, c))
    tmpl, typ, mk, c = specs[i % len(specs)]
    more = [p + c + s for p in ("/", "a/", "./", "../", "a//", "-/") for s in ("", "/", "/b", "//", "/.", "/..", "//b")] if tmpl in SLASHES else []
    for p in [c, c + "a", "a" + c, "a" + c + "b", c + c, "public" + c, c + "public", *more]:
        ctx.seen("reference form/character", tmpl + c)
        if p in more and not ctx.parse(f"module m '{tmpl.format(p)}' = {{\n}}\n").ok:
            continue            # doubled and outer slashes need not be accepted, but must not be lost
        judge(ctx, Doc([_detail((tmpl.format(p), typ, mk(p)))]), ctx.rng, accept={"C10"}, sample=tmpl.format(p))


BADREFS = ["br:", "br/", "ts:", "ts/", "br:mcr.microsoft.com", "br:mcr.microsoft.com/", "br:mcr.microsoft.com/a", "br:mcr.microsoft.com/a:", "br:mcr.microsoft.com/:t", "br:reg.azurecr.io/a", "br:reg.azurecr.io/:t",
           "br:reg.azurecr.io:a:t", "br:.azurecr.io/a:t", "br/al", "br/al:", "br/al:p", "br/al:p:", "br/:p:t", "br/al::t", "br/al:p:t:u", "br/al p:q:t", "br/al:p q:t", "br/al:p:t t", "br/al:p:t/u", "br/al:p:t?x",
           "br/al:p:t#x", "br/al:p:t*", "br/al/x:p:t", "br:mcr.microsoft.com/a:t:u", "br:mcr.microsoft.com/a:t/u", "br:mcr.microsoft.com/a b:t", "br:mcr.microsoft.com/a:t t", "br:mcrxmicrosoft.com/a:t", "br:mcr.microsoftxcom/a:t",
           "br:regxazurecr.io/a:t", "br:reg.azurecrxio/a:t", "br:x/reg.azurecr.io/a:t", "ts:x/rg/n", "ts:11111111-1111-1111-1111-111111111111", "ts:11111111-1111-1111-1111-111111111111/rg/n", "ts:11111111-1111-1111-1111-111111111111/rg/n:",
           "ts:11111111-1111-1111-1111-111111111111/rg:v", "ts:11111111-1111-1111-1111-111111111111//n:v", "ts:11111111-1111-1111-1111-111111111111/rg/n:v:w", "ts:11111111-1111-1111-1111-111111111111/rg/n:v w",
           "ts:11111111-1111-1111-1111-111111111111/rg/a/n:v", "ts:gggggggg-1111-1111-1111-111111111111/rg/n:v", "ts/al", "ts/al:n", "ts/al:n:", "ts/:n:v", "ts/al::v", "ts/al:n:v:w", "ts/al:n:v w", "ts/al:n:v?", "br/public:a/b:1\\n", "br/public:a/b:1\\'",
           "br/public:a/b:1 ", " br/public:a/b:1"[1:] + "}", "ts/al:n:v/", "br:mcr.microsoft.com/a:t@sha256", "br/public:a\\\\b:1"]


def c10_bad(ctx, i):
    """references without the required form"""
    r = ctx.rng
    if i < len(BADREFS):
        ref = BADREFS[i]
    else:
        # a valid reference with a character no component allows, or with a separator removed or doubled
        g = G(r)
        while True:
            ref = g.modref()
            if ref[1] != "local":
                break
        t = ref[0]
        k = r.randrange(3)
        if k == 0:
            p = r.randrange(3, len(t) + 1)
            ref = t[:p] + r.choice(" ?#*&=+,;<>|\"[]{}~^!%") + t[p:]
        elif k == 1:
            last = t.rindex(":")
            ref = t[:last] + t[last + 1:]
            # without its last separator a registry reference may still be one of another split
            if ref.count(":") >= (1 if t[2] == ":" else 0) + (1 if t[2] == ":" else 2):
                ref = t[:last + 1]
        else:
            ref = t + r.choice([":", ":x", "/", "/x", " ", "@1"])
    text = f"module m '{ref}' = {{\n  name: 'n'\n}}\n"
    o = ctx.parse(text)
    ctx.ran(text)
    if o.ok:
        ctx.fail("malformed module reference accepted", text=text, actual=repr(o.value.get("modules")))


def c10_local(ctx, i):
    """everything without one of the four prefixes is a local path"""
    r = ctx.rng
    paths = ["./m.bicep", "../a/b.bicep", "m.json", "brx:a/b:1", "b", "br", "ts", "tsx/a:b:1", "bra/c", "./br:x/y:1", "sub/ts/a:b:1", "BR/public:a:1", "Ts:1/2/3:4", "a:b", "C\\\\m.bicep", "ü.bicep", "a b.bicep", "", ".", "/abs/m.bicep", "xbr/public:a:1", " br/public:a:1", "br\\\\x"]
    p = paths[i % len(paths)] if i < len(paths) * 2 else r.choice(["./", "../", "", "x/"]) + "".join(r.choice("abc019._- /()@~+ü") for _ in range(r.randint(1, 12)))
    if i % 4 == 3:
        # a whole registry or template-spec reference behind something that only resembles the prefix
        ref = next(m for m in (G(r).modref() for _ in range(99)) if m[1] != "local")[0]
        p = r.choice([ref[:2].upper(), ref[:2].capitalize(), ref[0] + ref[1].upper(), "./" + ref[:2], " " + ref[:2], "x" + ref[:2], ref[:2] + "x", "tsbr"[:4], "br", "ts", "oci", "bicep"]) + r.choice([ref[2], ref[2], "\\\\", "@", "-", ";", "//", " :", "://"]) + ref[3:]
    if p[:3] in ("br:", "br/", "ts:", "ts/"):
        p = "./" + p
    judge(ctx, Doc([_detail((p, "local", {"full": p, "path": p}))]), r, accept={"C10"}, sample=p)


c01_sizes = sized("equal declarations", "declarations", "imported names", "name", "child resources")
c07_sizes = sized("equal decorators", "decorators", accept=C07OWN)
c08_sizes = sized("equal types", "union members", "object type", "function parameters", "array type")
c09_sizes = sized("child resources", "resource type")
c10_sizes = sized("module reference")


CHECKS = {
    "C01": Check([
        Stream("combinations", c01_combos, len(KINDS) ** 3, len(KINDS) ** 3 * 8, rule="all ordered triples (hence pairs) of kinds of declarations, in changing variants, with the same name where the kinds differ"),
        Stream("names", c01_names, len(WORDS) * (len(KINDS) - 1), len(WORDS) * (len(KINDS) - 1) * 8, rule="every name of the pool (keywords, function names, ...) for every kind"),
        Stream("mixed", c01_mix, 6000, 90000), Stream("many", c01_many, 48, 160), Stream("similar names", c01_similar, 900, 15000, rule="names of one kind that differ in case, length, underscores or digits only"), Stream("scope", c01_scope, 176 * 2, 176 * 20),
        Stream("imports", c01_imports, 1200, 15000), Stream("nothing", c01_empty, 60, 600), Stream("sizes", c01_sizes, c01_sizes.n * 3, c01_sizes.n * 24, rule="much of one thing, for 21 sizes from 5 to 257"), Stream("known findings", c01_known, 2),
    ], "distinct documents", TECH, "inventory of sections and names compared with the declared ones on every document observed", assumptions=ASSUME),
    "C07": Check([
        Stream("arguments", c07_args, len(ALLD) * len(DARGS), len(ALLD) * len(DARGS) * 6, rule="every decorator with every kind of argument on every kind of declaration"),
        Stream("pairs", c07_pairs, len(ALLD) ** 2 * 4, len(ALLD) ** 2 * 60), Stream("random", c07_random, 5000, 60000), Stream("long", c07_long, 60, 500), Stream("sizes", c07_sizes, c07_sizes.n * 6, c07_sizes.n * 48, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "decorators attribute of every declaration compared with what stands in front of it", assumptions=ASSUME),
    "C08": Check([
        Stream("types", c08_types, len(TYPES) * 10, exhaustive=True, rule="all types of a three-level enumeration of names, array suffixes and unions in every position a type can take, with and without nullable mark"),
        Stream("random", c08_random, 6000, 80000), Stream("deep", c08_deep, 100, 1000), Stream("members", c08_members, 2000, 20000), Stream("sizes", c08_sizes, c08_sizes.n * 6, c08_sizes.n * 48, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "type, signature and definition attributes compared with the declared ones", assumptions=ASSUME),
    "C09": Check([
        Stream("wrappers", c09_wraps, 125 * 8, 125 * 120, rule="all wrapper combinations of three (two) levels of nesting, child at changing places of the body"),
        Stream("random", c09_random, 5000, 60000), Stream("types", c09_types, 3000, 30000), Stream("bodies", c09_bodies, 4000, 50000), Stream("families", c09_siblings, 600, 6000), Stream("sizes", c09_sizes, c09_sizes.n * 6, c09_sizes.n * 48, rule="much of one thing, for 21 sizes from 5 to 257"),
        Stream("known findings", c09_known, 1),
        Stream("known findings 2", c09_known2, 1),
    ], "distinct documents", TECH, "all resource attributes and flattened children compared with the model", assumptions=ASSUME),
    "C10": Check([
        Stream("valid", c10_valid, 3000, 40000), Stream("characters", c10_chars, 8 * 12 + 2 * 11 + 9 + 2 * 14, exhaustive=True, rule="every allowed character at the start, middle and end of every component of every form"),
        Stream("malformed", c10_bad, 3000, 40000), Stream("local", c10_local, 1500, 15000), Stream("sizes", c10_sizes, c10_sizes.n * 24, c10_sizes.n * 192, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "classification and components compared with independently built references; malformed ones must raise", assumptions=ASSUME),
}
