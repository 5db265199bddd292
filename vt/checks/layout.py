"""Line numbers (C12), layout (C16), composition (C23): metamorphic monitors over pairs of results."""
import copy
import re

from .. import tables as T
from ..common import *  # noqa: F403
from ..gen import TYPICAL
from ..core import Check, Stream
from ..render import COMMENT_TEXTS
from .decls import KINDS, WRAPS, nest, small
from .values import ARGS, ASSUME, BASES, TECH, op_expr, style_of

META = "runtime monitoring of parse(): metamorphic oracle over related documents"


def strip_marks(x, top=True):
    """a result without line numbers; only the places where they belong are stripped"""
    return {s: {n: {k: v for k, v in a.items() if k not in MARK} if isinstance(a, dict) else a for n, a in e.items()} for s, e in x.items()}


def has_mark(x):
    if isinstance(x, dict):
        return any(k in MARK or has_mark(v) for k, v in x.items())
    return isinstance(x, list) and any(map(has_mark, x))


def same(a, b):
    """equality of results including types"""
    return not diff_actual(a, b)


def diff_actual(a, b, path=()):
    if type(a) is not type(b) or (isinstance(a, str) and is_ref(a) != is_ref(b)):
        return path or ("",)
    if isinstance(a, dict):
        if set(a) != set(b):
            return path + (f"keys {sorted(map(str, set(a) ^ set(b)))}",)
        for k in a:
            if d := diff_actual(a[k], b[k], path + (k,)):
                return d
        return ()
    if isinstance(a, list):
        if len(a) != len(b):
            return path + ("length",)
        for i, (x, y) in enumerate(zip(a, b)):
            if d := diff_actual(x, y, path + (i,)):
                return d
        return ()
    return () if a == b else path or ("",)


# --- C12 ---------------------------------------------------------------------
def c12_judge(ctx, doc, r, style):
    text, o = judge(ctx, doc, r, style, lines=True, accept={"C12"}, rejection=False)
    o2 = ctx.parse(text, False)
    if o.ok != o2.ok:
        return ctx.fail(f"with line numbers: {o!r}, without: {o2!r}", text=text)
    if not o.ok:
        return
    if has_mark(o2.value):
        ctx.fail("line numbers reported though not asked for", text=text, actual=repr(o2.value)[:2000])
    if d := diff_actual(strip_marks(o.value), o2.value):
        ctx.fail(f"asking for line numbers changes the result at {d}", text=text)
    n = 0
    for sec in o.value.values():
        for name, a in sec.items():
            n += 1
            if not all(type(a.get(k)) is int for k in MARK):
                ctx.fail(f"{name} has no line numbers", text=text, actual=repr(a)[:500])
    ctx.counts["line numbers checked"] += n


def c12_docs(ctx, i):
    r = ctx.rng
    g = G(r, {"ml": 2, "child": 0.5, "wrap": 0.5}, r.choice([0, 1, 2, 3]))
    s = wild(r)
    if i % 3 == 0:
        s.brk, s.optrun, s.blank = 0.4, 0.8, 0.4
    c12_judge(ctx, g.doc(), r, s)


def c12_kinds(ctx, i):
    """every kind first, in the middle and last, in every variant, after every other kind"""
    a, b = KINDS[i % len(KINDS)], KINDS[i // len(KINDS) % len(KINDS)]
    v = i // len(KINDS) ** 2
    ds = [small(a, "x", v), small(b, "y", v // 2)]
    if a == b == "scope":
        ds = ds[:1]
    ctx.seen("kind pairs", f"{a} {b}")
    r = ctx.rng
    s = [PLAIN, Style(final="none", optrun=1, blank=0.5), Style(nl="\r\n", comment=0.4, final="comment"), wild(r)][v % 4]
    c12_judge(ctx, Doc(ds), r, s)


def c12_nested(ctx, i):
    r = ctx.rng
    levels = [(r.choice(WRAPS), r.randrange(4), None, False) for _ in range(r.choice([2, 3, 4, 5]))]
    ds = [small(r.choice(KINDS[1:]), "a", i), nest(levels, r, k=i), small(r.choice(KINDS[1:]), "z", i + 1)]
    r.shuffle(ds)
    c12_judge(ctx, Doc(ds), r, wild(r))


def c12_multiline(ctx, i):
    """declarations that end or begin with text that spans lines"""
    r = ctx.rng
    g = G(r)
    v = ("ml", g.mlraw() + "\n" * (i % 4))
    ds = [place(r.choice(["var", "param default", "output", "last array item", "object value", "argument", "false value", "right operand"]), "x", v), small(r.choice(KINDS[1:]), "y", i),
          Param("p", ("name", "int"), None, False, [Deco("description", False, v), Deco("metadata", True, O(("k", v)))]), Func("f", [], ("name", "string"), v)]
    r.shuffle(ds)
    c12_judge(ctx, Doc(ds), r, style_of(r, 0.7))


def c12_big(ctx, i):
    r = ctx.rng
    n = 300 if ctx.tier == "quick" else 2000
    c12_judge(ctx, Doc([small(r.choice(KINDS[1:]), f"n{j}", j) for j in range(n)]), r, wild(r))


SIZED = [(w, n) for w in LARGE for n in COUNTS]


def c12_sizes(ctx, i):
    """much of one thing, plain and over many lines"""
    r = ctx.rng
    what, n = SIZED[i % len(SIZED)]
    ctx.seen("what/how many", f"{what} {n}")
    c12_judge(ctx, large(r, what, n)[1], r, PLAIN if i // len(SIZED) % 2 == 0 else wild(r))


def c16_sizes(ctx, i):
    r = ctx.rng
    what, n = SIZED[i % len(SIZED)]
    ctx.seen("what/how many", f"{what} {n}")
    toks = large(r, what, n)[1].tokens()
    base = plain(ctx, toks, r)
    if base:
        relayout(ctx, toks, base, wild(r), r)


TALL = [127, 200, 255, 256, 999, 1000, 4095, 9999, 10000, 32767, 32768, 65534, 65535, 65536, 70000, 99999, 100000, 131072, 300000]


def c12_tall(ctx, i):
    """far down in a tall document, or over many lines: the numbers go on"""
    r = ctx.rng
    n = TALL[i % len(TALL)] + r.choice([0, 0, 1, 2])
    if ctx.tier == "thorough":
        n = n * r.choice([1, 1, 3, 7])
    ds = [small(k, "x" + k, i + j) for j, k in enumerate(KINDS)]
    r.shuffle(ds)
    base = render(Doc(ds).tokens(), r, PLAIN)[0]
    want = ctx.parse(base, True)
    if not want.ok:
        return ctx.ran(base, False)
    how = i // len(TALL) % 4
    ctx.seen("height/filling", (TALL[i % len(TALL)], how))
    gap = ["\n" * n, "// c\n" * n, "/*\n" + " x\n" * (n - 2) + "*/\n", "var filler = '''\n" + "y\n" * (n - 2) + "'''\n"][how]
    got = ctx.parse(gap + base, True)
    ctx.ran((n, how, base), sample=f"{n} lines in front of: {base[:300]}")
    if not got.ok:
        return ctx.fail(f"{n} lines of filling in front of an accepted document: {got!r}", text=base)
    if how == 3:
        f = got.value.get("variables", {}).pop("filler", {})
        if (f.get("__start_line__"), f.get("__end_line__")) != (1, n):
            ctx.fail(f"a declaration from line 1 to line {n} is reported from {f.get('__start_line__')} to {f.get('__end_line__')}", text=base)
    for sec, es in want.value.items():
        for name, a in es.items():
            b = got.value.get(sec, {}).get(name, {})
            for m in MARK:
                if b.get(m) != (a[m] + n if a[m] else 0):
                    return ctx.fail(f"{sec} {name} {m}: {b.get(m)} instead of {a[m]} + {n} lines", text=base)
    ctx.counts["line numbers checked"] += len(ds)


# --- C16 ---------------------------------------------------------------------
def relayout(ctx, toks, base, style, r):
    text, _ = render(toks, r, style)
    o = ctx.parse(text)
    ctx.ran(text)
    if not o.ok:
        ctx.fail(f"another layout of an accepted document is rejected: {o!r}", text=text, accepted=base[0])
    elif d := diff_actual(base[1], o.value):
        ctx.fail(f"another layout changes the result at {d}", text=text, original=base[0])


def plain(ctx, toks, r):
    text, _ = render(toks, r, PLAIN)
    o = ctx.parse(text)
    if not o.ok:
        ctx.counts["plain document rejected (judged by other properties)"] += 1
        return None
    return text, o.value


def c16_random(ctx, i):
    r = ctx.rng
    g = G(r, None, r.choice([0, 1, 2, 3]))
    toks = g.doc().tokens()
    base = plain(ctx, toks, r)
    if base:
        for _ in range(3):
            relayout(ctx, toks, base, wild(r), r)


COM = [" ", "\t", "   ", "/**/", " /* c */ ", " /*'*/ ", " /* ''' */", " /* } ) ] */", " /* // */ ", " /* \n */ ", "/* *//* ${ */", " /***/ ", " /* @x() */", "\t/*\t*/\t"]
RUN = ["\n", "\r\n", "\n\n", "\n  \n\t\n", " // c\n", "// it's\n", "// '''\n", "// '\n", " //\n", "// } ] )\n\n", "// a\n// b\n", "\n// c\r\n", "// /* \n", " // */\n", "\n /* block */ \n", "// ${\n", "// @x()\n",
       " // 'a' '' \n", "\n # hash\n", " # it's\n", "// \\\n", "//\t\n", "\n/* a\n b */\n", "\r\n\r\n", "// ü✓\n", "//// x\n", "///\n", "// var x = 1\n"]


def c16_gaps(ctx, i):
    """one gap of a document at a time gets every kind of filler"""
    r = ctx.rng
    if i % 2:
        doc = Doc([small(KINDS[1:][i // 2 % 10], "x", i // 20), small(KINDS[1:][i // 2 // 10 % 10], "y", i // 40)])
    else:
        g = G(r, {"ml": 0.3}, 2)
        doc = g.doc(n=2)
    toks = doc.tokens()
    if len(toks) > 150:
        toks = None
        doc = Doc([small("param", "x", i), small("resource", "y", i)])
        toks = doc.tokens()
    base = plain(ctx, toks, r)
    if not base:
        return
    s = Style(ws=1.0, optrun=0.5)
    bare = []
    # the pieces of one fixed layout, then one gap replaced
    for k in range(1, len(toks)):
        gap = toks[k][0]
        val = gap == "val"
        fillers = r.sample(COM, 2) if gap in ("ws", "val", "decorun", "run") else r.sample([" ", "\t", "   ", "\t ", " \t\t"], 2) if gap == "fn" else []
        if gap in ("nl", "run", "decorun") or val:
            fillers = fillers + r.sample(RUN, 3)
        for f in fillers:
            bare.append((k, f))
    r.shuffle(bare)
    state = r.getstate()
    for k, f in bare[:40]:
        r.setstate(state)
        t1 = [list(t) for t in toks]
        text = render_with(toks, r, s, k, f)
        o = ctx.parse(text)
        ctx.ran(text)
        ctx.seen("gap/filler", f"{toks[k][0]} {f!r}")
        if not o.ok:
            ctx.fail(f"{f!r} in a gap of kind {toks[k][0]} in front of {toks[k][1]!r} makes an accepted document rejected: {o!r}", text=text, accepted=base[0])
        elif d := diff_actual(base[1], o.value):
            ctx.fail(f"{f!r} in a gap of kind {toks[k][0]} in front of {toks[k][1]!r} changes the result at {d}", text=text, original=base[0])


def render_with(toks, r, s, k, filler):
    """renders toks with the gap before token k replaced"""
    a, _ = render(toks[:k], r, Style(ws=s.ws, optrun=s.optrun, final="none"))
    b, _ = render([["ws", toks[k][1]]] + toks[k + 1:], r, s)
    need = ""
    if filler[:1] == "/" and a.endswith("/"):
        need = " "
    if filler.endswith("\n") or filler.endswith("*/") or filler.isspace():
        return a + need + filler + b
    return a + need + filler + " " + b


def add_parens(n, r, p=0.3):
    """the same value with redundant parentheses"""
    k = n[0]
    go = lambda x: add_parens(x, r, p)  # noqa: E731
    w = lambda x: _wrap(go(x), r, p)  # noqa: E731
    if k == "arr":
        return ("arr", [w(x) for x in n[1]], n[2])
    if k == "obj":
        return ("obj", [(e[0], e[1], e[2] if e[2][0] == "loop" else w(e[2]), e[3]) if e[0] == "pair" else e for e in n[1]], n[2])
    if k == "call":
        return ("call", n[1], n[2], [w(x) for x in n[3]])
    if k == "paren":
        return ("paren", w(n[1]))
    if k == "un":
        return ("un", n[1], w(n[2]))
    if k == "bin":
        return ("bin", n[1], w(n[2]), w(n[3]) if n[1] not in (".", ".?", "::") else go(n[3]))
    if k == "cond":
        return ("cond", w(n[1]), w(n[2]), w(n[3]))
    if k == "idx":
        return ("idx", w(n[1]), w(n[2]), n[3])
    if k == "facc":
        return ("facc", w(n[1]), n[2], [w(x) for x in n[3]])
    if k == "bang":
        return ("bang", go(n[1]))
    if k == "lam":
        return ("lam", n[1], n[2], w(n[3]))
    if k == "loop":
        return ("loop", n[1], n[2], w(n[3]), None if n[4] is None else w(n[4]), go(n[5]))
    return n


def _wrap(n, r, p):
    while r.random() < p and n[0] != "loop":
        n = ("paren", n)
    return n


def head_paren(n, r, p):
    """wraps n unless it would become the base of an accessor's right side"""
    return _wrap(n, r, p)


def c16_parens(ctx, i):
    r = ctx.rng
    if i % 2:
        v = op_expr(r, r.choice([2, 4, 6]))
    else:
        g = G(r, {"op": 2, "acc": 1.5, "ml": 0.3, "lam": 0.4}, r.choice([1, 2, 3]))
        v = g.value()
    pos = r.choice(POS)
    a = Doc([place(pos, "x", v)]).tokens()
    base = plain(ctx, a, r)
    if not base:
        return
    w = _wrap(add_parens(v, r, r.choice([0.1, 0.4])), r, 0.5)
    if w == v:
        return
    b = Doc([place(pos, "x", w)])
    relayout(ctx, b.tokens(), base, style_of(r, 0.3), r)


def c16_ends(ctx, i):
    """beginnings and ends of documents, and line endings of the whole document"""
    r = ctx.rng
    g = G(r, {"ml": 0}, r.choice([0, 1, 2]))
    toks = g.doc().tokens()
    base = plain(ctx, toks, r)
    if not base:
        return
    t = base[0].rstrip("\n")
    variants = [t, t + "\n\n\n", "\n\n" + t, t + " ", t + "\t\n", t + "\n// end", t + " // end", t + "\n/* end */", t + " /* end */\n", t + "\r\n", "// head\n" + t, "/* head */\n" + t + "\n", "/* head */ " + t,
                "# head\n" + t, "\n  // a\n\n /* b */\n" + t, " " + t, "\t" + t, "\r\n" + t, t + "\n# end", t + "\n//", t + "\n  ", "// '''\n" + t + "\n// '"]
    if "/*" not in t and "\\" not in t and "'''" not in t:
        variants.append(t.replace("\n", "\r\n"))
    for v in variants:
        o = ctx.parse(v)
        ctx.ran(v)
        if not o.ok:
            ctx.fail(f"another beginning or end makes an accepted document rejected: {o!r}", text=v, accepted=base[0])
        elif d := diff_actual(base[1], o.value):
            ctx.fail(f"another beginning or end changes the result at {d}", text=v, original=base[0])


Q_TEXT = "var a = {\n  k: c ?\n 'x' : y\n}\n"


def c16_known(ctx, i):
    """finding: a line break directly after the ? of a conditional that is the value of an object key"""
    a = ctx.parse(Q_TEXT.replace("?\n", "?"))
    b = ctx.parse(Q_TEXT)
    ctx.ran(Q_TEXT)
    if not a.ok:
        return
    if b.ok and not diff_actual(a.value, b.value):
        return
    if b.ok and b.value.get("variables", {}).get("a", {}).get("value") == {"k": "c", "'x'": "y"}:
        return ctx.known("break-after-question-mark", "a line break after ? of a conditional object value changes the result", text=Q_TEXT, actual=repr(b.value))
    ctx.fail("a line break after ? of a conditional object value changes the result in another way than the known one", text=Q_TEXT, actual=repr(b))


# --- C23 ---------------------------------------------------------------------
def shift(res, n):
    res = copy.deepcopy(res)
    for sec, e in res.items():
        for a in e.values():
            for k in MARK:
                if k in a and not (sec == "globals" and a[k] == 0):
                    a[k] += n
    return res


NOT_NAMES = set("targetScope import extension metadata param var output resource module type func as in for if with from null true false existing sys az".split())


def c23_compose(ctx, i):
    r = ctx.rng
    g = G(r, None, r.choice([0, 1, 2]))
    n = r.choice([2, 3, 5, 9])
    if i % 3 == 0:
        decls = [small(r.choice(KINDS[1:]), f"n{j}", r.randrange(4)) for j in range(n)]
    elif i % 8 in (2, 5):
        # declarations of few names which refer to each other all the time
        few = r.sample(WORDS, r.choice([4, 8, 12]))
        g = G(r, {"id": 14, "acc": 5}, r.choice([0, 0, 0, 1, 2]), words=few)
        g.name = lambda: r.choice(few)
        n = r.choice([4, 6, 10])
        decls = g.doc(n=n, kinds=r.choice([KINDS[1:], ["param", "output"], ["var", "output", "param"], ["resource", "output", "module", "param"], ["type", "param", "func", "var"]]) if len(few) > 4 else KINDS[1:]).decls
        ctx.counts["documents of related declarations"] += 1
    elif i % 8 == 7:
        # many nested resources, of few names
        g.w["child"], g.depth = 0.9, 2
        decls = g.doc(n=r.choice([6, 9, 12]), kinds=["resource"] * 5 + ["module", "var", "import"]).decls
    elif i % 8 == 1:
        # many declarations, or one with much of something among others
        if r.random() < 0.3:
            decls = large(r, "declarations", r.choice([17, 26, 33, 40, 65]))[1].decls
        else:
            decls = large(r)[1].decls + [small(r.choice(KINDS[1:]), f"n{j}", r.randrange(4)) for j in range(n)]
            r.shuffle(decls)
    else:
        decls = g.doc(n=n, kinds=KINDS[1:] + ["resource", "param"]).decls
    if r.random() < 0.3:
        decls.insert(r.randint(0, len(decls)), Scope(r.choice(["subscription", "tenant", "managementGroup", "resourceGroup"])))
    if i % 4 == 1:
        # declarations named like what the others call, refer to or are typed with
        words = sorted({w for d in decls for k, t in Doc([d]).tokens() if not t.startswith("'") for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", t)} - NOT_NAMES)
        calls = [w for w in words if w in T.ALL_FUNCS]
        for d in decls:
            if getattr(d, "name", None) and d.section != "imports" and words and r.random() < 0.6:
                d.name = r.choice(calls if calls and r.random() < 0.5 else words)
                ctx.counts["declarations named like words of others"] += 1
    parts = []
    for d in decls:
        t, _ = render(Doc([d]).tokens(), r, style_of(r, 0.5))
        if not t.endswith("\n"):
            t += "\n"
        parts.append((t, ctx.parse(t, True), d.kind == "scope"))
    for perm in range(3):
        if perm:
            r.shuffle(parts)
        text = "".join(t for t, _, _ in parts)
        o = ctx.parse(text, True)
        ctx.ran(text, sample=text)
        bad = [p for p in parts if not p[1].ok]
        if o.ok != (not bad):
            ctx.fail(f"declarations alone: {'all accepted' if not bad else repr(bad[0][1])}, together: {o!r}", text=text, part=bad[0][0] if bad else "")
            return
        if bad:
            ctx.counts["rejected alone and together"] += 1
            return
        want, line = {"globals": {"scope": {"value": "resourceGroup", "__start_line__": 0, "__end_line__": 0}}}, 0
        for t, po, is_scope in parts:
            for sec, e in shift(po.value, line).items():
                if sec == "globals" and not is_scope:
                    continue
                want.setdefault(sec, {}).update(e)
            line += t.count("\n")
        if d := diff_actual(want, o.value):
            ctx.fail(f"together the declarations mean something else at {d}", text=text)
            return
        # the order of the reports of one section does not depend on other sections
        o2 = ctx.parse(text, True)
        if not o2.ok or diff_actual(o.value, o2.value):
            ctx.fail("a second parse differs", text=text)


def find(x, path=()):
    if is_ref(x) and x == "SENTINEL":
        return path
    if isinstance(x, dict):
        for k, v in x.items():
            p = find(v, path + (k,))
            if p is not None:
                return p
    if isinstance(x, list):
        for j, v in enumerate(x):
            p = find(v, path + (j,))
            if p is not None:
                return p
    return None


_paths = {}
# positions whose value is reported under another name than the declaration's
NAMED = {"nested resource body"}


def surround(d, r, g):
    """gives a declaration other surroundings of its value: type, decorators, name, flags"""
    d.name = g.name()
    mine = [x for x in g.decos(0.4)]
    if d.section != "extensions":
        d.decorators = list(d.decorators) + mine      # behind those that may hold the value
    if d.section in ("parameters", "outputs") or d.section == "variables" and r.random() < 0.4:
        d.typ = g.typ()
        d.nullable = r.random() < 0.2
    elif d.section == "functions":
        d.typ, d.args = g.typ(), [(f"a{j}", g.typ()) for j in range(r.randint(0, 3))]
    elif d.section == "resources":
        d.typ, d.version, d.existing = g.rtype(), g.version(), r.random() < 0.3
    elif d.section == "modules":
        d.ref = g.modref()
    return d


def c23_position(ctx, i):
    """a value in every position has the value it has in a variable"""
    r = ctx.rng
    g = G(r, {"lam": 0.2}, r.choice([0, 1, 2, 3]))
    k = i % 3
    v = g.value() if k else op_expr(r, 4)
    if k == 2:
        v = r.choice(ARGS + BASES)
    o = ctx.parse(render(Doc([Var("x", v)]).tokens(), r, PLAIN)[0])
    if not o.ok:
        ctx.counts["value rejected alone (judged by other properties)"] += 1
        return
    want = o.value["variables"]["x"]["value"]
    for pos in (POS if i % 4 == 0 else r.sample(POS, 8)):
        if pos not in _paths:
            t, _ = render(Doc([place(pos, "x", ("id", "SENTINEL"))]).tokens(), r, PLAIN)
            so = ctx.parse(t)
            _paths[pos] = find(so.value) if so.ok else None
            if not so.ok:
                ctx.fail(f"a plain reference is rejected in position {pos!r}: {so!r}", text=t)
            elif _paths[pos] is None:
                ctx.fail(f"a plain reference is not reported in position {pos!r}", text=t, actual=repr(so.value))
        path = _paths[pos]
        if path is None:
            continue
        d = place(pos, "x", v)
        if i % 2 and pos not in NAMED:
            surround(d, r, g)
            path = tuple(d.name if j == 1 else s for j, s in enumerate(path))
        text, _ = render(Doc([d]).tokens(), r, style_of(r, 0.15))
        po = ctx.parse(text)
        ctx.ran(text, sample=text)
        ctx.seen("positions", pos)
        if not po.ok:
            ctx.fail(f"value accepted for a variable is rejected in position {pos!r}: {po!r}", text=text)
            continue
        x = po.value
        try:
            for s in path:
                x = x[s]
        except (KeyError, IndexError, TypeError):
            ctx.fail(f"no value where position {pos!r} has it", text=text, actual=repr(po.value)[:1500])
            continue
        if d := diff_actual(want, x):
            ctx.fail(f"value differs in position {pos!r} at {d}", text=text, expected=repr(want)[:1500], actual=repr(x)[:1500])


SIMPLE = [("str", "P@ssw0rd!"), ("str", ""), ("str", "a"), ("str", "${a}-b"), ("ml", "a\nb"), ("int", 0), ("int", 1), ("int", 443), ("un", "-", ("int", 1)), ("bool", True), ("bool", False), ("null",), ("id", "a"),
          ("bin", ".", ("id", "a"), ("id", "id")), ("arr", [], []), ("obj", [], []), ("arr", [S("a"), S("b")], [","]), ("arr", [N(1), N(1)], ["nl"]), O(("a", N(1)), ("name", S("x"))), ("call", "resourceGroup", None, []),
          ("call", "newGuid", None, []), ("call", "toLower", None, [I("a")]), ("call", "my_f", "sys", [I("a")]), ("bin", "??", I("a"), S("x")), ("bin", "+", N(1), N(2)), ("cond", I("a"), S("b"), S("c")), ("un", "!", I("a")),
          ("idx", I("a"), N(0), False), ("paren", S("a")), ("facc", I("r"), "listKeys", [])]
FULLDECO = [[], [Deco("secure")], [Deco("secure", True)], [Deco("description", False, S("d"))], [Deco("allowed", False, ("arr", [S("a"), S("b")], ["nl"]))], [Deco("minLength", False, N(0)), Deco("maxLength", False, N(3))],
            [Deco("minValue", False, N(0)), Deco("maxValue", False, N(10))], [Deco("metadata", False, O(("a", N(1))))], [Deco("export")], [Deco("sealed")], [Deco("batchSize", False, N(1))], [Deco("discriminator", False, S("kind"))],
            [Deco("secure"), Deco("description", False, S("d"))], [Deco("description", True, S("d")), Deco("secure"), Deco("minLength", False, N(1))]]
TYPES_ = ["string", "int", "bool", "object", "array", "any", "secureString", "secureObject", "myType", "String"]


def c23_context(ctx, i):
    """simple values of declarations with all decorators, types and flags: the value is the one of a bare variable"""
    r = ctx.rng
    v = SIMPLE[i % len(SIMPLE)]
    decos = FULLDECO[i // len(SIMPLE) % len(FULLDECO)]
    t = TYPES_[i // len(SIMPLE) // len(FULLDECO) % len(TYPES_)]
    o = ctx.parse(render(Doc([Var("x", v)]).tokens(), r, PLAIN)[0])
    if not o.ok:
        ctx.counts["value rejected alone (judged by other properties)"] += 1
        return
    want = o.value["variables"]["x"]["value"]
    name = r.choice(WORDS)
    ctx.seen("type/decorators", f"{t} {' '.join(d.name for d in decos)}")
    typ = ("name", t)
    for d, path in [(Param(name, typ, v, False, decos), ("parameters", "default")), (Var(name, v, typ if i % 2 else None, False, decos), ("variables", "value")),
                    (Output(name, ("array", typ) if i % 3 == 0 else typ, v, False, decos), ("outputs", "value")), (Func(name, [("a", typ)], typ, v, decos), ("functions", "expression")),
                    (res(name, O((r.choice(WORDS), v), (r.choice(["name", "location", "sku", "value"]) + "_", v), ("properties", O((r.choice(WORDS), v)))), decos), ("resources",)),
                    (Module(name, r.choice([("./m.bicep", "local", {}), ("br/public:a/b:1.0", "x", {}), ("ts/a:b:1.0", "x", {})]), O(("name", v), ("params", O((r.choice(WORDS), v)))), decos), ("modules",)),
                    (Extension(name, O((r.choice(WORDS), v)), "al"), ("extensions",))]:
        text, _ = render(Doc([d]).tokens(), r, style_of(r, 0.1))
        po = ctx.parse(text)
        ctx.ran(text, sample=text)
        if not po.ok:
            ctx.fail(f"value accepted for a variable is rejected in a {d.kind}: {po!r}", text=text)
            continue
        e = po.value[path[0]]
        if len(path) == 1:
            # objects: every value inside is the one
            (e,) = e.values()
            todo = [e.get("config")]
            n = 0
            while todo:
                x = todo.pop()
                for k, y in (x or {}).items():
                    if k in ("properties", "params") and isinstance(y, dict) and diff_actual(want, y):
                        todo.append(y)
                        continue
                    n += 1
                    if df := diff_actual(want, y):
                        ctx.fail(f"value differs in a {d.kind} at {df}", text=text, expected=repr(want), actual=repr(y)[:600])
            if not n:
                ctx.fail(f"no values in the body of a {d.kind}", text=text, actual=repr(e)[:600])
            continue
        try:
            x = e[name]
            for s in path[1:]:
                x = x[s]
        except (KeyError, TypeError):
            ctx.fail(f"no value where a {d.kind} has it", text=text, actual=repr(po.value)[:600])
            continue
        if df := diff_actual(want, x):
            ctx.fail(f"value differs in a {d.kind} at {df}", text=text, expected=repr(want), actual=repr(x)[:600])


KEYED = [(k, v) for k in TYPICAL for v in TYPICAL[k]] + [(k, v) for k in TYPICAL for s in SIMPLE for v in (s, O(("zz", s), ("b", N(1))), ("arr", [s, I("zz")], ["nl"]))] + [(k, k2) for k in TYPICAL for k2 in TYPICAL]


def c23_keyed(ctx, i):
    """under every key a value is what it is under a key of no meaning, in every place that holds an object"""
    r = ctx.rng
    k, v = KEYED[i % len(KEYED)]
    if isinstance(v, str):
        v = r.choice(TYPICAL[v])
    o = ctx.parse(render(Doc([Var("x", v)]).tokens(), r, PLAIN)[0])
    if not o.ok:
        ctx.counts["value rejected alone (judged by other properties)"] += 1
        return
    want = o.value["variables"]["x"]["value"]
    key = k
    ctx.seen("keys", k)
    before = O(("zz", N(1)))
    pairs = before[1] * r.randint(0, 1) + [("pair", k, v, False)] + [("pair", "yy", S(""), False)] * r.randint(0, 1)
    obj = ("obj", pairs, ["nl"] * (len(pairs) - 1))
    n = r.choice(WORDS)
    for d, path in [(Var(n, obj), ("variables", n, "value")), (Param(n, ("name", "object"), obj), ("parameters", n, "default")), (Output(n, ("name", "object"), obj), ("outputs", n, "value")),
                    (Var(n, O(("aa", O(("bb", obj))))), ("variables", n, "value", "aa", "bb")), (Var(n, ("arr", [N(1), obj], ["nl"])), ("variables", n, "value", 1)), (res(n, obj), ("resources", n, "config")),
                    (res(n, O(("properties", obj))), ("resources", n, "config", "properties")), (Module(n, ("./m.bicep", "local", {}), O(("params", obj))), ("modules", n, "config", "params")), (Func(n, [], ("name", "object"), obj), ("functions", n, "expression")),
                    (Var(n, ("bin", "??", I("a"), obj)), ("variables", n, "value", "operator", "operands", "operand_2")), (Var(n, ("cond", I("a"), obj, N(1))), ("variables", n, "value", "operator", "operands", "true_value"))]:
        text, _ = render(Doc([d]).tokens(), r, style_of(r, 0.1))
        po = ctx.parse(text)
        ctx.ran(text, sample=text)
        if not po.ok:
            ctx.fail(f"value accepted for a variable is rejected under the key {k} in {'.'.join(map(str, path))}: {po!r}", text=text)
            continue
        x = po.value
        try:
            for s in path:
                x = x[s]
            x = x[key]
        except (KeyError, IndexError, TypeError):
            ctx.fail(f"no value under the key {k} in {'.'.join(map(str, path))}", text=text, actual=repr(po.value)[:1500])
            continue
        if df := diff_actual(want, x):
            ctx.fail(f"value under the key {k} in {'.'.join(map(str, path))} differs at {df}", text=text, expected=repr(want)[:800], actual=repr(x)[:800])


CHECKS = {
    "C12": Check([
        Stream("documents", c12_docs, 5000, 70000), Stream("kinds", c12_kinds, len(KINDS) ** 2 * 8, len(KINDS) ** 2 * 60, rule="every ordered pair of kinds in all variants and four layouts"),
        Stream("nested", c12_nested, 2000, 25000), Stream("multi-line", c12_multiline, 2500, 30000), Stream("big", c12_big, 16, 40), Stream("sizes", c12_sizes, len(SIZED), len(SIZED) * 12, rule="much of one thing (30 kinds), for 21 sizes from 5 to 257"), Stream("tall", c12_tall, len(TALL) * 4, len(TALL) * 40, rule="heights around powers of two and ten, four kinds of filling"),
    ], "distinct documents, each parsed with and without line numbers", "runtime monitoring of parse(): line oracle from the layout generator, differential oracle between the two settings",
        "first and last line of every declaration of the documents observed compared with the lines the generator wrote them on", assumptions=ASSUME),
    "C16": Check([
        Stream("random", c16_random, 3000, 40000, rule="one plain and three wild layouts of the same tokens"), Stream("gaps", c16_gaps, 500, 6000, rule="one gap at a time filled with blanks, comments, line breaks"),
        Stream("parentheses", c16_parens, 6000, 80000), Stream("ends", c16_ends, 400, 5000), Stream("sizes", c16_sizes, len(SIZED), len(SIZED) * 12, rule="much of one thing (30 kinds), for 21 sizes from 5 to 257"), Stream("known findings", c16_known, 1),
    ], "distinct re-layouts, each compared with the result of the plain layout", META, "results of re-laid-out documents compared with the result of the plain layout", assumptions=ASSUME[1:]),
    "C23": Check([
        Stream("composition", c23_compose, 4500, 50000, rule="2 to 10 declarations alone, together, and in two other orders"), Stream("positions", c23_position, 1500, 20000, rule="a value in a variable and in up to 40 other positions"), Stream("keyed", c23_keyed, len(KEYED), len(KEYED) * 4, rule="41 usual property names with every value of theirs, with 30 simple values alone, in an object and in an array, and with a value of each other name; in eleven places"),
        Stream("contexts", c23_context, len(SIMPLE) * len(FULLDECO) * len(TYPES_), len(SIMPLE) * len(FULLDECO) * len(TYPES_) * 4, rule="30 simple values x 14 decorator rows x 10 types in every kind of declaration that holds a value"),
    ], "distinct composed documents and placed values", META, "results of wholes compared with results of parts; no model involved", assumptions=ASSUME[1:]),
}
