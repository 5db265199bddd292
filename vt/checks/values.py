"""Values: literals (C02), references (C03), operators (C04), calls (C05), accessors (C06), loops and lambdas (C11)."""
import itertools

from .. import tables as T
from ..common import *  # noqa: F403
from ..core import Check, Stream
from ..gen import ATOMS, INTERPS, valid_raw

TECH = "runtime monitoring of parse(): reference-model oracle over generated and enumerated documents"
ASSUME = ["the reference model (vt/ast.py, vt/tables.py) states what a document means; it was written from the documentation of the output format and the language, not from the code under test",
          "documents are generated by vt/gen.py; nothing is claimed beyond the documents observed"]


def style_of(rng, p=0.3):
    return wild(rng) if rng.random() < p else PLAIN


# --- C02 ---------------------------------------------------------------------
ALPHA = ["'", "\\", "$", "{", "}", "a"]


def nth_word(alpha, i):
    """the i-th word over alpha, by length then lexicographically"""
    n, k = 0, len(alpha)
    while i >= k ** n:
        i -= k ** n
        n += 1
    w = []
    for _ in range(n):
        w.append(alpha[i % k])
        i //= k
    return "".join(reversed(w))


def words_up_to(k, n):
    return sum(k ** j for j in range(n + 1))


CONTEXTS = ["only array item", "middle array item", "object value", "middle object value", "known function argument", "middle argument", "left operand",
            "right operand", "condition", "parenthesised", "index", "loop collection", "decorator argument", "param default", "resource body"]


def c02_short(ctx, i):
    raw = nth_word(ALPHA, i)
    text0 = f"var x = '{raw}'"
    if f"'{raw}'".startswith("'''"):
        ctx.counts["words that start a multi-line string (skipped)"] += 1
        ctx.ran(text0, False)
        return
    if not valid_raw(raw):
        o = ctx.parse(text0)
        ctx.ran(text0)
        ctx.counts["quote sequences that are no string"] += 1
        if o.ok:
            ctx.fail("text that is not one string accepted as one", text=text0, actual=repr(o.value))
        return
    ctx.counts["strings"] += 1
    node = ("str", raw)
    # with neighbours that would be swallowed if the literal did not end where it ends
    judge(ctx, Doc([Var("x", node), Var("y", ("str", "z}\\'" if i % 3 else "z")), Metadata("m", "q")]), ctx.rng, accept={"C02", "C01"})
    n = len(CONTEXTS) if len(raw) <= 3 else 2
    for j in range(n):
        pos = CONTEXTS[(i + j) % len(CONTEXTS)]
        ctx.seen("positions", pos)
        judge(ctx, Doc([place(pos, "x", node), Var("y", ("str", "a"))]), ctx.rng, accept={"C02", "C01"})


ML = ["'", "\n", "a", "$", "{", "\\"]


def c02_ml(ctx, i):
    raw = nth_word(ML, i)
    if "'''" in raw or (raw.startswith("'") and raw.strip("'") == ""):
        ctx.ran(raw, False)
        return
    if i % 2:
        raw = raw.replace("\n", "\r\n")
    node = ("ml", raw)
    pos = CONTEXTS[i % len(CONTEXTS)]
    judge(ctx, Doc([Var("x", node), place(pos, "p", node), Var("y", ("ml", "q"))]), ctx.rng, accept={"C02", "C01"})


def lit_gen(rng, depth):
    return G(rng, {"id": 0, "call": 0, "op": 0, "cond": 0, "un": 0, "acc": 0, "lam": 0, "paren": 0, "bang": 0, "ml": 2, "arr": 3, "obj": 3, "wrap": 0,
                   "child": 0, "loop": 0}, depth)


class NoLoop(G):
    def loop(self, *a, **k):
        return self.value(0)


def lit(rng, depth):
    g = lit_gen(rng, depth)
    g.__class__ = NoLoop
    return g


def c02_random(ctx, i):
    r = ctx.rng
    g = lit(r, r.choice([1, 2, 3, 5]))
    decls = [Var(f"v{j}", g.value(), None, False, ()) for j in range(r.choice([1, 3, 8]))]
    judge(ctx, Doc(decls), r, style_of(r), accept={"C02", "C01"})


def c02_positions(ctx, i):
    r = ctx.rng
    g = lit(r, 2)
    pos = POS[i % len(POS)]
    ctx.seen("positions", pos)
    v = g.value()
    judge(ctx, Doc([Var("before", g.value(0)), place(pos, "x", v), Var("after", g.value(0))]), r, style_of(r))


BIG = [0, 1, 9, 10, 255, 256, 2**31 - 1, 2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 10**30, 10**100, 10**1000]


def c02_ints(ctx, i):
    r = ctx.rng
    if i < len(BIG):
        n = BIG[i]
    else:
        n = r.randrange(10 ** r.choice([1, 3, 10, 18, 40]))
    node = ("int", n, r.choice(["", "0", "000"]) + str(n))
    pos = POS[i % len(POS)]
    judge(ctx, Doc([place(pos, "x", node), Var("y", ("int", n))]), r)


def c02_long(ctx, i):
    """long literals and long collections"""
    r = ctx.rng
    k = i % 5
    n = r.choice([300, 1000, 4000])
    if k == 0:
        v = ("str", "".join(x for x in (r.choice(ATOMS + INTERPS) for _ in range(n)) if valid_raw(x)))
        if not valid_raw(v[1]):
            v = ("str", "x" * n)
    elif k == 1:
        v = ("ml", "\n".join("line %d 'q' ${x}" % j for j in range(n)))
    elif k == 2:
        v = ("arr", [("int", j) for j in range(n)], [r.choice([",", "nl"]) for _ in range(n - 1)])
    elif k == 3:
        v = ("obj", [("pair", f"k{j}" if j % 3 else f"'k-{j}'", ("str", str(j)), False) for j in range(n)], ["nl"] * (n - 1))
    else:
        v = ("str", "x")
        for j in range(40):
            v = O((f"k{j}", v)) if r.random() < 0.5 else ("arr", [v], [])
    judge(ctx, Doc([Var("x", v), Var("y", ("str", "end"))]), r)


SIZES = [1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 79, 80, 81, 99, 100, 101, 120, 127, 128, 129, 130, 140, 150, 160, 200, 250, 255, 256, 257, 260, 300, 400, 499, 500, 512, 600, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4096, 5000, 8192, 9999, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000]
TEXTURES = ["a", "A", "k9", "aB", "_", "x_", "a b", "0", "42", "a.b", "a/b", "-", ".", "ab-", "é", "${a}", "${a}-", "\\n", "\\'", " ", "\t", "(", "[0]", "{", "//", "/*", "#", "''"[:0] + "q", "0x1F", "A_B", "\u00df", "\U0001f600", "==", "@"]


def c02_lengths(ctx, i):
    """literals and keys of one texture, of every size"""
    r = ctx.rng
    n = SIZES[i % len(SIZES)]
    if ctx.tier == "quick" and n > 10000 and i >= len(SIZES) * 8:
        n = r.randint(2, 700)
    if i >= 2 * len(SIZES):
        n = max(1, n + r.randint(-2, 2))
    x = TEXTURES[(i // 3) % len(TEXTURES)] if i % 3 else r.choice(TEXTURES)
    t = (x * (n // len(x) + 1))[:n]
    if not valid_raw(t):
        t = x * max(1, n // len(x))
    k = (i // len(SIZES)) % 7
    word = "".join(c for c in t if c.isascii() and (c.isalnum() or c == "_"))
    word = word if word and not word[0].isdigit() else "n" + word
    word = word if len(word) > 3 and len(word) > n // 2 else ("n" + "k" * n)
    ctx.seen("sizes of literals", n)
    ctx.seen("kinds of long literals", k)
    if k == 0:
        v = ("str", t)
    elif k == 1:
        v = O(("'" + t + "'", ("int", 1)), ("b", ("str", t[:40])))
    elif k == 2:
        v = O((word, ("int", 1)), ("'" + word[1:] + "'", ("int", 2)))
    elif k == 3:
        v = ("ml", "\n" * (i % 2) + t)
    elif k == 4:
        v = ("arr", [("str", t), ("id", word), ("str", word)], [",", "nl"])
    elif k == 5:
        m = min(n, 4000)
        v = ("int", int(("9" * m, "1" + "0" * (m - 1), "7" * m)[i % 3]))
    else:
        v = O(("a", O(("'" + word + "'", ("str", word)))), ("c", ("arr", [O(("'" + t + "'", ("null",)))], [])))
    judge(ctx, Doc([Var("x", v), place(POS[i % len(POS)], "y", v), Var("z", ("str", "end"))]), r)


# --- C03 ---------------------------------------------------------------------
SPECIALWORDS = ["true_", "null_", "for_", "resource_", "nullx", "trueish", "falsey", "existing", "if", "in", "as", "with", "from", "type", "param", "var", "output",
                "module", "metadata", "func", "import", "extension", "targetScope", "listKeys", "getSecret", "string", "int", "bool", "array", "object", "any", "items", "concat",
                "resourceGroup", "sysx", "azx", "_", "a1", "A", "union", "lambda", "str", "BicepElement"]


def has_kw_trouble(w):
    return w in ("for",)


def c03_positions(ctx, i):
    """an identifier and a literal with the same characters side by side, in every position"""
    r = ctx.rng
    w = SPECIALWORDS[i % len(SPECIALWORDS)] if i % 3 else r.choice(WORDS)
    pos = POS[(i // len(SPECIALWORDS)) % len(POS)]
    ctx.seen("positions", pos)
    ctx.seen("words", w)
    decls = [place(pos, "one", ("id", w)), place(pos, "two", ("str", w)), place(pos, "three", ("ml", w))]
    r.shuffle(decls)
    judge(ctx, Doc(decls), r, style_of(r, 0.2))


def c03_pairs(ctx, i):
    """mixtures inside one value"""
    r = ctx.rng
    w = r.choice(SPECIALWORDS + WORDS)

    def leaf():
        return r.choice([("id", w), ("str", w), ("str", "${" + w + "}"), ("ml", w)])

    def val(d):
        k = r.randrange(9)
        if d <= 0 or k == 0:
            return leaf()
        if k == 1:
            its = [val(d - 1) for _ in range(r.randint(1, 4))]
            its = [("id", x[1] + "_") if x[0] == "id" and x[1] in ("for", "resource") else x for x in its]
            return ("arr", its, [","] * (len(its) - 1))
        if k == 2:
            return O(*[(f"k{j}", val(d - 1)) for j in range(r.randint(1, 3))])
        if k == 3:
            return ("call", r.choice(["concat", "union", "f", "max"]), None, [val(d - 1) for _ in range(r.randint(2, 4))])
        if k == 4:
            return ("bin", r.choice(list(T.BINOPS)), tail(val(d - 1)), val(d - 1))
        if k == 5:
            return ("cond", tail(val(d - 1)), val(d - 1), val(d - 1))
        if k == 6:
            return ("idx", ("id", w), tail(val(d - 1)), False)
        if k == 7:
            return ("bin", r.choice([".", "::"]), ("id", w), ("id", r.choice(SPECIALWORDS)))
        return ("un", "!", val(d - 1))

    decls = [place(r.choice(POS), f"n{j}", val(3)) for j in range(3)]
    judge(ctx, Doc(decls), r, style_of(r, 0.2))


def c03_docs(ctx, i):
    r = ctx.rng
    g = G(r, {"id": 8, "str": 8}, r.choice([1, 2, 3]), words=SPECIALWORDS)
    judge(ctx, g.doc(), r, style_of(r), rejection=False)


# --- C04 ---------------------------------------------------------------------
OPS = list(T.BINOPS)
LEAF = [("id", "a"), ("int", 1), ("str", "s"), ("bool", True), ("null",), ("call", "f", None, [("id", "p")]), ("idx", ("id", "v"), ("int", 0), False),
        ("bin", ".", ("id", "o"), ("id", "p")), ("arr", [("int", 1), ("id", "q")], [","]), ("obj", [("pair", "k", ("int", 1), False)], [])]


def c04_pairs(ctx, i):
    """every ordered pair of binary operators, in every grouping"""
    o1, o2 = OPS[i // len(OPS)], OPS[i % len(OPS)]
    ctx.seen("operator pairs", o1 + " " + o2)
    a, b, c = ("id", "a"), ("id", "b"), ("id", "c")
    P = lambda n: ("paren", n)  # noqa: E731
    forms = [("bin", o1, a, ("bin", o2, b, c)), ("bin", o1, P(("bin", o2, a, b)), c), ("bin", o1, a, P(("bin", o2, b, c))),
             P(("bin", o1, a, ("bin", o2, b, c))), ("bin", o1, P(a), ("bin", o2, P(b), P(P(c)))), ("un", "!", ("bin", o1, a, ("un", "-", ("bin", o2, b, c)))),
             ("bin", o1, ("int", 1), ("bin", o2, ("str", "s"), ("null",))), ("bin", o1, P(("un", "!", a)), ("bin", o2, P(("un", "-", b)), ("un", "!", c)))]
    for j, f in enumerate(forms):
        judge(ctx, Doc([Var("x", f), place(POS[(i * 8 + j) % len(POS)], "y", f)]), ctx.rng, style_of(ctx.rng, 0.2))


def c04_cond(ctx, i):
    """every operator around the parts of a conditional expression"""
    o = OPS[i % len(OPS)]
    a, b, c, d = ("id", "a"), ("id", "b"), ("id", "c"), ("id", "d")
    P = lambda n: ("paren", n)  # noqa: E731
    B = lambda x, y: ("bin", o, x, y)  # noqa: E731
    forms = [("cond", P(B(a, b)), c, d), B(a, ("cond", b, c, d)), ("cond", a, B(b, c), d), ("cond", a, b, B(c, d)), ("cond", P(("cond", a, b, c)), d, a),
             ("cond", a, P(("cond", b, c, d)), d), ("cond", a, b, ("cond", c, d, a)), ("un", "!", ("cond", a, b, c)), B(P(("cond", a, b, c)), d), B(a, P(("cond", b, c, d))),
             ("cond", a, ("cond", b, c, d), a), ("cond", a, ("un", "-", b), ("un", "!", c)), ("cond", ("call", "f", None, [B(a, b), c]), ("arr", [B(a, b)], []), O(("k", B(a, b))))]
    for j, f in enumerate(forms):
        judge(ctx, Doc([Var("x", f), place(POS[(i * 13 + j) % len(POS)], "y", f)]), ctx.rng, style_of(ctx.rng, 0.2))


def c04_triples(ctx, i):
    n = len(OPS)
    o1, o2, o3 = OPS[i // n // n], OPS[i // n % n], OPS[i % n]
    a, b, c, d = LEAF[i % 10], LEAF[i // 7 % 10], LEAF[i // 3 % 10], LEAF[i // 11 % 10]
    P = lambda x: ("paren", x)  # noqa: E731
    post = lambda x: x if x[0] not in ("bin",) else P(x)  # noqa: E731
    a, b, c = post(a), post(b), post(c)
    forms = [("bin", o1, a, ("bin", o2, b, ("bin", o3, c, d))), ("bin", o3, P(("bin", o2, P(("bin", o1, a, b)), c)), d),
             ("bin", o2, P(("bin", o1, a, b)), ("bin", o3, c, d)), ("bin", o1, a, ("bin", o3, P(("bin", o2, b, c)), d)), ("bin", o1, a, P(("bin", o2, b, P(("bin", o3, c, d)))))]
    judge(ctx, Doc([Var(f"x{j}", f) for j, f in enumerate(forms)]), ctx.rng)


def op_expr(r, d, ops=None):
    """a random expression of operators with random parentheses"""
    def leaf():
        x = r.choice(LEAF)
        return ("paren", x) if x[0] == "bin" else x

    def go(d):
        k = r.random()
        if d <= 0 or k < 0.12:
            return leaf()
        if k < 0.25:
            return ("un", r.choice("!-"), go(d - 1))
        left = leaf() if r.random() < 0.6 else ("paren", go(d - 1))
        if k < 0.4:
            return ("cond", left, go(d - 1), go(d - 1))
        return ("bin", r.choice(ops or OPS), left, go(d - 1))

    n = go(d)
    for _ in range(r.choice([0, 0, 0, 1, 3])):
        n = ("paren", n)
    return n


def c04_random(ctx, i):
    r = ctx.rng
    n = op_expr(r, r.choice([2, 4, 7, 12]))
    ctx.seen("positions", p := r.choice(POS))
    judge(ctx, Doc([place(p, "x", n), place(r.choice(POS), "y", op_expr(r, 3))]), r, style_of(r, 0.4))


def c04_nodes(ctx, i):
    """operators over operands of every kind"""
    r = ctx.rng
    g = G(r, {"op": 4, "cond": 2, "un": 2, "paren": 3, "acc": 0.7, "lam": 0.2, "ml": 0.4}, 3)
    judge(ctx, Doc([Var(f"v{j}", g.value(3)) for j in range(2)]), r, style_of(r, 0.3))


def c04_chain(ctx, i):
    """long chains"""
    r = ctx.rng
    n = ("id", "end")
    for j in range(r.choice([20, 50, 90])):
        n = ("bin", r.choice(OPS), ("id", f"v{j}"), n)
    judge(ctx, Doc([Var("x", n)]), r)


# --- C05 ---------------------------------------------------------------------
ARGS = [("int", 0), ("str", ""), ("bool", False), ("null",), ("arr", [], []), ("obj", [], []), ("id", "a"), ("str", "x"), ("int", 7), ("bool", True), ("ml", "m\nn"),
        ("call", "g", None, []), ("call", "concat", None, [("str", ""), ("id", "a")]), ("bin", "+", ("int", 1), ("id", "b")), ("cond", ("id", "c"), ("int", 0), ("null",)),
        ("lam", ["x"], False, ("id", "x")), ("lam", ["x", "y"], True, ("bin", "<", ("id", "x"), ("id", "y"))), ("arr", [("id", "q"), ("null",)], [","]),
        ("obj", [("pair", "k", ("null",), False)], []), ("paren", ("id", "a")), ("idx", ("id", "a"), ("int", 0), False), ("bin", ".", ("call", "resourceGroup", None, []), ("id", "location")),
        ("un", "-", ("int", 1)), ("un", "!", ("id", "a"))]
CALLS = [(f, n) for f in T.ALL_FUNCS for n in range(T.arity_range(f)[0], T.arity_range(f)[1] + 1)]


def c05_table(ctx, i):
    """every function with every argument count, namespace and kind of argument"""
    r = ctx.rng
    f, n = CALLS[i % len(CALLS)]
    variant = i // len(CALLS)
    ctx.seen("function/arity", f"{f}/{n}")
    base = [("id", f"p{j}") for j in range(n)]
    decls = []
    ns = T.namespace(f)
    if variant == 0:
        decls = [Var("plain", ("call", f, None, base)), Var("spaced", ("call", f, ns, base))]
        # each argument position with each kind of value
        for j in range(n):
            for k, a in enumerate(ARGS):
                decls.append(Var(f"v{j}_{k}", ("call", f, None if (j + k) % 3 else ns, base[:j] + [a] + base[j + 1:])))
    else:
        for k in range(6):
            args = [r.choice(ARGS[:6]) if r.random() < 0.5 else r.choice(ARGS) for _ in range(n)]
            decls.append(place(r.choice(POS), f"v{k}", ("call", f, r.choice([None, ns]), args)))
        other = "az" if ns == "sys" else "sys"
        decls.append(Var("w", ("call", f, other, base)))
    if decls:
        judge(ctx, Doc(decls), r, style_of(r, 0.2))


UNKNOWN = ["f", "myFunc", "my_func", "_", "__a", "f1", "map", "sort", "reduce", "toObject", "items", "list", "listKeysX", "Concat", "CONCAT", "concat_", "ifx", "forx", "forest", "a" * 60,
           "parseCidr", "objectKeys", "readEnvironmentVariable", "nameof", "groupBy", "in", "as", "type", "existing", "resource_", "nullx", "trueish", "sysx", "azx", "any_", "0a".replace("0", "o")]


def c05_unknown(ctx, i):
    r = ctx.rng
    name = UNKNOWN[i % len(UNKNOWN)]
    n = i // len(UNKNOWN) % 9
    ns = [None, None, "sys", "az"][i // len(UNKNOWN) // 9 % 4]
    ctx.seen("unknown names", name)
    if i // len(UNKNOWN) // 9 % 2 == 0:
        args = [("id", f"p{j}") for j in range(n)]
    else:
        args = [r.choice(ARGS) for _ in range(n)]
    judge(ctx, Doc([place(POS[i % len(POS)], "x", ("call", name, ns, args)), Var("y", ("call", name, ns, args))]), r, style_of(r, 0.3))


def c05_random(ctx, i):
    r = ctx.rng
    g = G(r, {"call": 9, "op": 0.5, "cond": 0.3, "un": 0.2, "paren": 0.3, "acc": 0.7, "lam": 0.8, "ml": 0.4, "bang": 0.1}, r.choice([2, 3, 4]))
    judge(ctx, Doc([place(r.choice(POS), f"v{j}", g.call(g.depth)) for j in range(3)]), r, style_of(r, 0.4))


def c05_many(ctx, i):
    """many arguments and deep nesting"""
    r = ctx.rng
    name = r.choice(["concat", "union", "max", "min", "format", "guid", "uniqueString", "intersection", "f", "my_f"])
    n = ("id", "x")
    if i % 2:
        for _ in range(r.choice([10, 30, 60])):
            f = r.choice(["toLower", "any", "string", "f", "my_f", "length"])
            n = ("call", f, r.choice([None, None, "sys"]) if f in T.ALL_FUNCS else None, [n])
    else:
        n = ("call", name, None, [r.choice(ARGS) for _ in range(r.choice([12, 40, 100]))])
    judge(ctx, Doc([Var("x", n)]), r)


# --- C06 ---------------------------------------------------------------------
STEPS = [".p", ".?p", "::p", "[0]", "['k']", "[?e]", ".list()", ".get(a)", ".f()", "!"]


def chain(base, steps):
    """left-to-right steps -> node, grouped as the property states"""
    for j, s in enumerate(steps):
        if s == "[0]":
            base = ("idx", base, ("int", 0), False)
        elif s == "['k']":
            base = ("idx", base, ("str", "k"), False)
        elif s == "[?e]":
            base = ("idx", base, ("bin", "+", ("id", "e"), ("int", 1)), True)
        elif s == ".list()":
            base = ("facc", base, "listKeys", [])
        elif s == ".get(a)":
            base = ("facc", base, "getSecret", [("str", "n"), ("id", f"a{j}")])
        elif s == "!":
            base = ("bang", base)
        else:
            op = {".p": ".", ".?p": ".?", "::p": "::", ".f()": "."}[s]
            nxt = ("call", "toObj", None, [("id", f"a{j}")]) if s == ".f()" else ("id", f"p{j}")
            return ("bin", op, base, chain(nxt, steps[j + 1:]))
    return base


BASES = [("id", "a"), ("call", "f", None, [("id", "x")]), ("call", "resourceGroup", None, []), ("paren", ("cond", ("id", "c"), ("id", "d"), ("id", "e"))),
         ("paren", ("bin", ".", ("id", "q"), ("id", "r"))), ("id", "list"), ("id", "getSecret")]


def ok_steps(steps):
    return not any(a == "!" and b == "!" for a, b in zip(steps, steps[1:]))


def c06_seq(ctx, i):
    """every sequence of steps up to a length"""
    idx = [int(c) for c in str(i).zfill(4)]
    n = 4
    steps = [STEPS[k] for k in idx[:n]]
    if not ok_steps(steps):
        ctx.ran(steps, False)
        return
    ctx.seen("step pairs", steps[0] + steps[1])
    decls = [Var("x", chain(BASES[i % len(BASES)], steps)), place(POS[i % len(POS)], "y", chain(BASES[i // 7 % len(BASES)], steps))]
    if i < 1000:
        s3 = steps[1:]
        if ok_steps(s3):
            decls += [Var("z", chain(BASES[i // 3 % len(BASES)], s3)), Var("z2", chain(("id", "b"), s3[1:]))]
    judge(ctx, Doc(decls), ctx.rng, style_of(ctx.rng, 0.15))


# no resource functions, though nearly named like them
NEARLIST = ["lis", "lisa", "alist", "my_list", "getSecrets", "getSecre", "xgetSecret", "get", "LIST", "GetSecret", "list_", "lst", "LISTKeys", "listx_y", "getsecret", "gist", "getSecret2"]
INDEXTEXTS = ["0", "1", "00", "-1", "42", "", " ", "a", "p0", "a.b", "a b", "true", "null", "*", "?", "[0]", "k", "${i}", "${a}-b", "it\\'s", "length", "ß", "x.y/z", "0x1", "1.5", "1e3", "²", "٣"]


def c06_random(ctx, i):
    r = ctx.rng

    def step_chain(d):
        b = r.choice(BASES) if r.random() < 0.7 or d <= 0 else ("paren", step_chain(d - 1))
        n = r.choice([1, 2, 3, 6, 10])
        return go(b, n, d)

    def go(b, n, d):
        for j in range(n):
            k = r.randrange(6)
            if k < 2:
                ix = r.choice([("int", 0), ("str", "k"), ("id", "i"), ("bin", "+", ("id", "i"), ("int", 1)), ("un", "-", ("int", 1)), r.choice(ARGS), ("str", r.choice(INDEXTEXTS))]) if d <= 0 or r.random() < 0.5 else step_chain(d - 1)
                b = ("idx", b, ix, r.random() < 0.25)
            elif k == 2:
                b = ("facc", b, r.choice(["listKeys", "list", "getSecret", "ListKeys", "listAccountSas"]), [r.choice(ARGS) if d <= 0 or r.random() < 0.6 else step_chain(d - 1) for _ in range(r.choice([0, 1, 2, 3]))])
            elif k == 3 and b[0] != "bang":
                b = ("bang", b)
            else:
                nx = r.choice([("id", r.choice(WORDS)), ("id", "p"), ("call", "f", None, [("id", "x")]), ("call", r.choice(NEARLIST), None, [("id", "x")])])
                return ("bin", r.choice([".", ".", ".?", "::"]), b, go(nx, n - j - 1, d))
        return b

    decls = [place(r.choice(POS), f"v{j}", step_chain(2)) for j in range(3)]
    decls.append(Var("w", ("bin", r.choice(OPS), ("paren", step_chain(1)), step_chain(1))))
    judge(ctx, Doc(decls), r, style_of(r, 0.3))


def c06_long(ctx, i):
    r = ctx.rng
    steps = []
    while len(steps) < r.choice([20, 60]):
        s = r.choice(STEPS)
        if not (s == "!" and steps and steps[-1] == "!"):
            steps.append(s)
    judge(ctx, Doc([Var("x", chain(("id", "a"), steps))]), r)


# --- C11 ---------------------------------------------------------------------
LOOPNAMES = ["i", "item", "items", "idx", "in_", "if_", "index", "for_", "x", "_", "type", "resource_", "array_name", "condition", "config", "a1", "null_", "existing", "as", "with",
             "from", "param", "var", "output", "module", "func", "listKeys", "in", "sysx"]
COLLS = [("id", "c"), ("id", "items"), ("id", "range"), ("call", "range", None, [("int", 0), ("id", "n")]), ("call", "items", None, [("id", "o")]), ("arr", [("int", 1), ("int", 2)], [","]), ("arr", [], []),
         ("bin", ".", ("id", "a"), ("id", "b")), ("bin", ".", ("id", "a"), ("id", "items")), ("idx", ("id", "a"), ("str", "k"), False), ("cond", ("id", "c"), ("id", "d"), ("arr", [], [])), ("paren", ("id", "c")),
         ("call", "union", None, [("id", "a"), ("id", "b")]), ("bin", "??", ("id", "a"), ("arr", [], [])), ("call", "filter", None, [("id", "l"), ("lam", ["x"], False, ("bin", ">", ("id", "x"), ("int", 1)))]),
         ("str", "s"), ("obj", [], []), ("null",), ("call", "items", "sys", [("id", "o")]), ("call", "itemsx", None, [])]
BODIES = [("obj", [], []), O(("name", ("id", "i"))), O(("k", ("arr", [("id", "i")], [])), ("l", O(("m", ("null",))))), ("id", "i"), ("str", "x${i}"), ("call", "f", None, [("id", "i")]), ("int", 0),
          ("arr", [("id", "i"), ("id", "i")], [","]), ("bin", "+", ("id", "i"), ("int", 1)), ("null",), ("bool", False)]
CONDS = [None, ("id", "c"), ("bool", True), ("bool", False), ("int", 0), ("null",), ("bin", "==", ("id", "i"), ("int", 1)), ("un", "!", ("call", "empty", None, [("id", "c")])), ("bin", "&&", ("id", "a"), ("bin", "||", ("id", "b"), ("id", "c"))),
         ("call", "contains", None, [("id", "a"), ("str", "b")]), ("paren", ("bin", "==", ("id", "a"), ("str", ""))), ("bin", ".", ("id", "i"), ("id", "on")), ("cond", ("id", "a"), ("id", "b"), ("id", "c")), ("str", ""), ("call", "if_", None, [("id", "x")])]
HOLD = ["var", "output", "object value", "resource", "module", "nested", "middle object value"]


def hold(kind, name, loop):
    if kind == "var":
        return Var(name, loop)
    if kind == "output":
        return Output(name, ("array", ("name", "object")), loop)
    if kind == "object value":
        return Var(name, O(("k", loop)))
    if kind == "middle object value":
        return res(name, O(("name", S("n")), ("'p'", O(("k", loop), ("l", N(1))))))
    if kind == "resource":
        return res(name, loop)
    if kind == "module":
        return Module(name, ("./m.bicep", "local", {"full": "./m.bicep", "path": "./m.bicep"}), loop)
    return res(name, ("obj", [("pair", "a", N(1), False), ("child", Resource("c", "s", None, loop, nested=True))], ["nl"]))


def c11_loops(ctx, i):
    """loop forms x collections x bodies x conditions x holders"""
    r = ctx.rng
    item = LOOPNAMES[i % len(LOOPNAMES)]
    idx = None if i % 2 else LOOPNAMES[(i // 2) % len(LOOPNAMES)]
    if idx == item:
        idx += "2"
    coll = COLLS[i % len(COLLS)]
    h = HOLD[i % len(HOLD)]
    objonly = h in ("resource", "module", "nested")
    body = BODIES[i % 3] if objonly else BODIES[i % len(BODIES)]
    cond = CONDS[i // 3 % len(CONDS)]
    if body[0] not in ("obj",) and cond is not None:
        body = BODIES[i % 3]
    ctx.seen("holder/collection", f"{h}/{COLLS.index(coll)}")
    ctx.seen("holder/condition", f"{h}/{CONDS.index(cond)}")
    judge(ctx, Doc([hold(h, "x", ("loop", item, idx, coll, cond, body)), Var("y", N(1))]), r, style_of(r, 0.3))


def c11_deploy(ctx, i):
    r = ctx.rng
    h = ["resource", "module", "nested"][i % 3]
    conds = [c for c in CONDS if c is not None]
    c = conds[i // 3 % len(conds)]
    ctx.seen("deployment holder/condition", f"{h}/{CONDS.index(c)}")
    judge(ctx, Doc([hold(h, "x", ("deploy", c, BODIES[i % 3])), hold(h, "y", ("loop", "i", None, ("id", "c"), c, BODIES[(i + 1) % 3]))]), r, style_of(r, 0.4))


def c11_lambda(ctx, i):
    r = ctx.rng
    n = i % 6 + 1
    ps = r.sample([x for x in LOOPNAMES], n)
    bodies = BODIES + COLLS[:14]
    body = bodies[i // 6 % len(bodies)]
    lam = ("lam", ps, n > 1 or i % 4 == 0, body)
    f = r.choice(["map", "filter", "sort", "reduce", "toObject", "my_f", "mapValues"])
    call = ("call", f, None, {0: [("id", "l"), lam], 1: [("id", "l"), lam, lam], 2: [("id", "l"), ("int", 0), lam]}[i % 3] if f != "filter" else [("id", "l"), lam])
    nest = ("call", "map", None, [call, ("lam", ["q"], False, call)])
    ctx.seen("parameters", n)
    judge(ctx, Doc([place(POS[i % len(POS)], "x", call), Var("y", nest), Func("g", [], ("name", "object"), call)]), r, style_of(r, 0.3))


def c11_random(ctx, i):
    r = ctx.rng
    g = G(r, {"lam": 1.5, "loop": 0.7, "wrap": 0.8, "child": 0.2, "op": 1, "acc": 1.2, "ml": 0.4}, r.choice([1, 2, 3]))
    kinds = ["var", "output", "resource", "module"]
    decls, used = [], set()
    for _ in range(3):
        k = r.choice(kinds)
        if k in ("var", "output"):
            n = f"n{len(decls)}"
            loop = g.loop(g.depth, body=None if r.random() < 0.5 else g.obj(1, loops=True))
            decls.append(hold(k, n, loop))
        else:
            decls.append(g.unique(k, used))
    judge(ctx, Doc(decls), r, style_of(r, 0.4))


def c11_nested(ctx, i):
    """loops inside loops, through objects"""
    r = ctx.rng
    body = O(("v", r.choice(BODIES)))
    for j in range(r.randint(1, 6)):
        body = O((f"k{j}", ("loop", r.choice(LOOPNAMES), None if r.random() < 0.5 else f"i{j}", r.choice(COLLS), r.choice(CONDS) if r.random() < 0.5 else None, body)), ("z", N(j)))
    judge(ctx, Doc([hold(r.choice(HOLD[:2]), "x", ("loop", "o", "p", r.choice(COLLS), None, body)), res("y", body)]), r, style_of(r, 0.3))


c02_sizes = sized("equal items", "equal values", "items", "keys", "interpolations", "lines of text", "brackets")
c03_sizes = sized("name", "items", "arguments", "union members", "declarations")
c04_sizes = sized("operators")
c05_sizes = sized("equal arguments", "arguments", "nested lambdas")
c06_sizes = sized("accessors", "list arguments")
c11_sizes = sized("equal loops", "lambda variables", "nested lambdas", "nested loops")


CHECKS = {
    "C02": Check([
        Stream("strings", c02_short, words_up_to(6, 6), words_up_to(6, 7), exhaustive=True, rule="all words over ' \\ $ { } a up to length 6 (thorough: 7) between quotes; exactly the valid ones must come back verbatim, in changing positions"),
        Stream("multi-line", c02_ml, words_up_to(6, 5), words_up_to(6, 6), exhaustive=True, rule="all words over ' LF a $ { \\ up to length 5 (thorough: 6) as multi-line strings, half of them with CRLF"),
        Stream("random", c02_random, 6000, 60000, rule="random nested literals, plain and wild layouts"),
        Stream("positions", c02_positions, 50 * len(POS), 500 * len(POS), rule="random literals in every position"),
        Stream("integers", c02_ints, 500, 5000), Stream("long", c02_long, 80, 600),
        Stream("lengths", c02_lengths, len(SIZES) * 21, len(SIZES) * 210, rule="sizes of literals and keys from 1 to 100000 x 7 kinds x textures"),
        Stream("sizes", c02_sizes, c02_sizes.n * 2, c02_sizes.n * 16, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents; words that cannot be told from a multi-line string start are counted as trivial", TECH,
        "held on the documents observed: all short quote/escape/interpolation words, random literals in all positions", assumptions=ASSUME),
    "C03": Check([
        Stream("positions", c03_positions, len(SPECIALWORDS) * len(POS) * 2, len(SPECIALWORDS) * len(POS) * 12, rule="an identifier, a string and a multi-line string with the same characters in the same position"),
        Stream("mixtures", c03_pairs, 8000, 80000), Stream("documents", c03_docs, 4000, 40000), Stream("sizes", c03_sizes, c03_sizes.n * 2, c03_sizes.n * 16, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "the types of all leaves of the results observed were compared with the model", assumptions=ASSUME),
    "C04": Check([
        Stream("pairs", c04_pairs, len(OPS) ** 2, exhaustive=True, rule="all ordered pairs of binary operators in 8 groupings, each also in a changing position"),
        Stream("conditionals", c04_cond, len(OPS) * 4, len(OPS) * 40),
        Stream("triples", c04_triples, len(OPS) ** 3, exhaustive=True, rule="all ordered triples of binary operators in all 5 groupings over changing operands"),
        Stream("random", c04_random, 8000, 90000), Stream("operands", c04_nodes, 5000, 60000), Stream("chains", c04_chain, 100, 600), Stream("sizes", c04_sizes, c04_sizes.n * 8, c04_sizes.n * 64, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "all pairs and triples of operators in all groupings, random expressions beyond", assumptions=ASSUME),
    "C05": Check([
        Stream("table", c05_table, len(CALLS) * 4, len(CALLS) * 60, rule="every built-in function with every accepted number of arguments (variadic ones: up to 4 more); every argument position with 24 kinds of value, both namespaces, random positions"),
        Stream("unknown", c05_unknown, len(UNKNOWN) * 9 * 4, len(UNKNOWN) * 9 * 40), Stream("random", c05_random, 6000, 70000), Stream("long", c05_many, 200, 2000), Stream("sizes", c05_sizes, c05_sizes.n * 5, c05_sizes.n * 40, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "every function, arity and namespace; argument kinds one position at a time and random mixtures", assumptions=ASSUME),
    "C06": Check([
        Stream("sequences", c06_seq, 10 ** 4, exhaustive=True, rule="all sequences of up to 4 out of 10 accessor steps, on changing bases and in changing positions"),
        Stream("random", c06_random, 8000, 80000), Stream("long", c06_long, 200, 2000), Stream("sizes", c06_sizes, c06_sizes.n * 10, c06_sizes.n * 80, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "all step sequences up to length 4 and random longer ones", assumptions=ASSUME),
    "C11": Check([
        Stream("loops", c11_loops, 6000, 40000), Stream("conditions", c11_deploy, 500, 4000), Stream("lambdas", c11_lambda, 3000, 30000),
        Stream("random", c11_random, 5000, 60000), Stream("nested", c11_nested, 1500, 15000), Stream("sizes", c11_sizes, c11_sizes.n * 5, c11_sizes.n * 40, rule="much of one thing, for 21 sizes from 5 to 257"),
    ], "distinct documents", TECH, "loop forms, conditions and lambdas in all holders over fixed pools of parts, and random ones", assumptions=ASSUME),
}
