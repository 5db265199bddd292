"""Inputs: files and texts (C17), malformed documents (C18), tree dumps (C22)."""
import contextlib
import json
import os
import pathlib
import re
import stat
import subprocess
import sys

from .. import tables as T
from ..common import *  # noqa: F403
from ..core import REPO, Check, HarnessError, Stream
from ..gen import valid_raw
from ..recog import may_be
from .decls import BADREFS, KINDS, MOD, small
from .layout import diff_actual
from .values import ASSUME, BASES, style_of

BRACKETS = ["(", ")", "[", "]", "{", "}"]
EMPTY = {"globals": {"scope": {"value": "resourceGroup"}}}


# --- C18 ---------------------------------------------------------------------
def reject(ctx, text, what, tree=True, key=None):
    """both entry points must raise an ordinary error"""
    ctx.ran(key or text)
    o = ctx.parse(text, bool(len(text) % 2))
    ctx.seen("errors raised by parse", o.kind())
    if o.ok:
        ctx.fail(f"malformed document accepted ({what})", text=text, actual=repr(o.value)[:2000])
    if tree:
        t = ctx.tree(text)
        if t.ok:
            ctx.fail(f"malformed document dumped as a tree ({what})", text=text, actual=str(t.value)[:2000])


PROBE = "@description('d')\nparam p string = 'x'\nresource r 'A/b@1' = {\n  name: p\n  resource c 's' = {\n    k: [1, 'a']\n  }\n}\nimport {a as b} from 'c'\nvar v = [for i in p: f(i)]\n"
_probe = {}


def still_usable(ctx, after):
    """the same parsers handle the next document as if nothing had happened"""
    for lines in (False, True):
        o = ctx.parse(PROBE, lines)
        want = _probe.setdefault(lines, None)
        if want is None:
            f = ctx.parse(PROBE, parser=ctx.new_parser(lines))
            if not f.ok:
                raise HarnessError(f"probe document rejected: {f!r}")
            want = _probe[lines] = f.value
        if not o.ok or diff_actual(want, o.value):
            ctx.fail(f"after failed calls the parser no longer handles a good document: {o!r}", text=after)
            ctx.parsers.clear()
            return
    ctx.counts["good documents parsed after failures"] += 2


def base_doc(r, depth=None, simple=False):
    """a document to damage; simple: strings of letters only, no comments, no multi-line strings"""
    w = {"ml": 0} if simple else None
    g = G(r, w, r.choice([0, 1, 2, 3]) if depth is None else depth)
    if simple:
        g.raw = lambda interp=True: r.choice(["abc", "x", "Hello", "z"])
        g.key = lambda: r.choice([g.name(), "'k'", "'Zz'"])
        while True:
            doc = g.doc(r.choice([1, 1, 2, 3, 4]))
            if not any(t.startswith("'''") for _, t in doc.tokens()):
                return doc
    if depth is None and r.random() < 0.06:
        return large(r)[1]
    return g.doc(r.choice([1, 1, 2, 3, 4]))


def is_string(t):
    return t.startswith("'")


def joined(toks, r, style=PLAIN):
    return render(toks, r, style)[0]


def tokens_text(toks, upto=None):
    return [t for _, t in (toks if upto is None else toks[:upto])]


def c18_brackets(ctx, i):
    """one bracket lost, added or exchanged: the brackets no longer pair up, so no reading is left"""
    r = ctx.rng
    doc = base_doc(r)
    toks = doc.tokens()
    at = [k for k, (_, t) in enumerate(toks) if t in BRACKETS]
    n = 0
    for k in r.sample(at, min(len(at), 6)):
        m = toks[:k] + toks[k + 1:]
        if m:
            # the token behind the lost one keeps its own gap
            reject(ctx, joined(m, r), f"bracket {toks[k][1]} lost")
            n += 1
        other = r.choice([b for b in BRACKETS if b != toks[k][1]])
        reject(ctx, joined(toks[:k] + [(toks[k][0], other)] + toks[k + 1:], r), f"bracket {toks[k][1]} exchanged for {other}")
        ctx.seen("bracket exchanges", toks[k][1] + other)
    for _ in range(4):
        k = r.randint(0, len(toks))
        b = r.choice(BRACKETS)
        reject(ctx, joined(toks[:k] + [("ws", b)] + toks[k:], r), f"bracket {b} added")
        ctx.seen("bracket added before", (b, toks[k][1][:1] if k < len(toks) else "end"))
    for k in at:
        if k + 1 < len(toks) and toks[k][1] in ")]}" and toks[k + 1][1] in ")]}" and toks[k][1] != toks[k + 1][1]:
            reject(ctx, joined(toks[:k] + [(toks[k][0], toks[k + 1][1]), (toks[k + 1][0], toks[k][1])] + toks[k + 2:], r), "closing brackets crossed")
    still_usable(ctx, "brackets")


def one_string(t):
    """independent scanner: is t exactly one single-quoted or multi-line string?"""
    if t.startswith("'''"):
        return len(t) >= 6 and t.endswith("'''") and t.find("'''", 3) >= len(t) - 5 and not t[3:-3].endswith("''''")
    return len(t) >= 2 and t[0] == t[-1] == "'" and valid_raw(t[1:-1])


def c18_cut(ctx, i):
    """the document ends in the middle: inside a string or with brackets still open"""
    r = ctx.rng
    toks = base_doc(r).tokens()
    depth, cuts = 0, []
    for k, (_, t) in enumerate(toks):
        depth += (t in "([{") - (t in ")]}")
        if depth > 0:
            cuts.append(k + 1)
    for k in r.sample(cuts, min(len(cuts), 8)):
        reject(ctx, joined(toks[:k], r, style_of(r, 0.0)), "cut with open brackets")
    strings = [k for k, (_, t) in enumerate(toks) if is_string(t)]
    for k in r.sample(strings, min(len(strings), 6)):
        t = toks[k][1]
        for n in {1, len(t) - 1, r.randint(1, len(t) - 1)}:
            part = t[:n]
            # something in front of it may be a complete string: only cuts that leave an odd tail count
            if part == "''" or one_string(part) or (part.startswith("'''") and (part.endswith("'''") and len(part) >= 6)):
                continue
            if "''" in part[:2] and not t.startswith("'''"):
                continue
            reject(ctx, joined(toks[:k] + [(toks[k][0], part)], r, Style(final="none", optrun=0.7)), "cut inside a string")
            ctx.counts["cuts inside strings"] += 1
    still_usable(ctx, "cut")


BADCHARS = [";", "^", '"', "`", "\\", "$", "\x00", "€", "\u00a0", "\x0c", "\x0b", "\ufeff", "&", "§", "\u2028", "\u201c", "\u2019", "\x7f", "\u200b", "¬", "’a’", '"a"', "=", "@", "/*", "'"]
BADCHARS += [chr(c) for c in range(1, 32) if chr(c) not in "\t\n\x0b\x0c"] + ["\x85", "\u2029", "\u3000", "\u2003", "\u00ad", "\ufe0f", "\u0301", "é", "ａ", "٣", "Ω", "_é", "aé", "\ufffd", "\ud800", "\U0001f600", "<<", ">>", "\\n", "%%", "~", "|&", "..", "1é"]


# characters no token starts with
NOWHERE = set(';^"`€\x0c\x0b§¬\x7f') | {"\u2028", "\u201c", "\u200b", "\u00a0"}


def located(ctx, text, pos):
    """the error names the line and column of the character at pos"""
    places = [(text.count("\n", 0, p) + 1, p - text.rfind("\n", 0, p)) for p in [pos] + [m.start() for m in re.finditer(r"\b(sys|az)\s*\.\s*\w+\s*\Z", text[:pos])]]
    line, column = places[0]
    for what, o in (("parse", ctx.parse(text)), ("create_tree", ctx.tree(text))):
        if o.ok:
            continue
        got = (getattr(o.error, "line", None), getattr(o.error, "column", None))
        # a name in a namespace is a word only together with the parenthesis behind it
        if got not in places:
            ctx.fail(f"{what}: the error names line and column {got}, the character that cannot stand there is at {(line, column)}", text=text, error=f"{type(o.error).__name__}: {str(o.error)[:300]}")
    ctx.counts["places of errors compared"] += 1


def c18_places(ctx, i):
    """an illegal character behind a well-formed beginning: the error says where"""
    r = ctx.rng
    toks = G(r, None, r.choice([0, 1, 2])).doc().tokens()
    text = joined(toks, r, style_of(r, 0.4))
    bad = r.choice(sorted(NOWHERE))
    for _ in range(3):
        k = r.randint(0, len(toks))
        if k:
            # right behind the last token, because a line break may already be one too much
            head = joined(toks[:k - 1] + [(toks[k - 1][0], toks[k - 1][1] + "\ue000mark\ue000")], r, r.choice([PLAIN, style_of(r, 0.4)])).split("\ue000mark\ue000")[0]
        else:
            head = r.choice(["", "\n", "// c\n\n"])
        t = head + r.choice([" ", "  ", "\t"]) + bad + " " + text
        ctx.ran(t)
        if t.count("'''") % 2 or bad in head:
            continue
        located(ctx, t, len(head) + (t[len(head):].index(bad)))


def c18_chars(ctx, i):
    """a character or token that cannot stand there, at every gap of a document"""
    r = ctx.rng
    doc = base_doc(r, simple=True)
    toks = doc.tokens()
    bad = BADCHARS[i % len(BADCHARS)]
    for k in (range(len(toks) + 1) if len(toks) < 25 else sorted(r.sample(range(len(toks) + 1), 25))):
        if k == 0 and bad == "\ufeff":
            continue
        text = joined(toks[:k] + [("ws", " " + bad + " ")] + toks[k:], r)
        if bad == "=" and may_be(text) is not False:
            # it may turn the brackets behind a type into a default value
            ctx.counts["stray characters with a reading"] += 1
            continue
        ctx.seen("stray", repr(bad))
        reject(ctx, text, f"stray {bad!r}")
        if bad in NOWHERE:
            located(ctx, text, text.index(bad))
    still_usable(ctx, "chars")


def c18_quotes(ctx, i):
    """quotes of a string lost or replaced"""
    r = ctx.rng
    doc = base_doc(r, simple=True)
    toks = doc.tokens()
    strings = [k for k, (_, t) in enumerate(toks) if is_string(t) and len(t) > 2]
    for k in r.sample(strings, min(len(strings), 8)):
        t = toks[k][1]
        for bad in (t[1:], t[:-1], '"' + t[1:-1] + '"', "`" + t[1:-1] + "`", t + "'", "'" + t, t[:2] + "'" + t[2:], "''" + t, "'''" + t[1:], t + "''"):
            if bad.count("'") % 2 == 0 and '"' not in bad and "`" not in bad and not bad.startswith("''"):
                continue
            text = joined(toks[:k] + [(toks[k][0], bad)] + toks[k + 1:], r)
            # an even number of quotes can still pair up with other strings of the line
            if all(x.count("'") % 2 == 0 for x in text.split("\n")) and "'" in bad:
                continue
            reject(ctx, text, f"string {t} damaged to {bad}")
    still_usable(ctx, "quotes")


def c18_broken(ctx, i):
    """a string broken across lines, or two that lack their closing quotes: a string ends on its line"""
    r = ctx.rng
    toks = base_doc(r).tokens()
    strings = [k for k, (_, t) in enumerate(toks) if is_string(t) and not t.startswith("'''")]
    for k in r.sample(strings, min(len(strings), 6)):
        raw = toks[k][1][1:-1]
        at = [j for j in range(len(raw) + 1) if valid_raw(raw[:j])]
        j = r.choice(at) if i % 3 else at[-1]
        nl = ["\n", "\r\n", "\r", "\\\n", "\\\r\n", "\n\n", "\n  ", " \n", "\\\\\n"][i % 9]
        ctx.seen("line breaks in strings", (nl, "front" if not j else "end" if j == len(raw) else "inside"))
        reject(ctx, joined(toks[:k] + [(toks[k][0], "'" + raw[:j] + nl + raw[j:] + "'")] + toks[k + 1:], r, style_of(r, 0.1)), "string broken across lines")
    # two strings lose a quote: the closing one of the first, the opening or the closing one of a later one
    for _ in range(4):
        if len(strings) < 2:
            break
        a, b = sorted(r.sample(strings, 2))
        ta, tb = toks[a][1][:-1], r.choice([toks[b][1][:-1], toks[b][1][1:]])
        m = toks[:a] + [(toks[a][0], ta + "\n")] + toks[a + 1:b] + [(toks[b][0], tb)] + toks[b + 1:]
        if r.random() < 0.5:
            m = toks[:a] + [(toks[a][0], ta)] + [("ws", "\n")] + toks[a + 1:b] + [(toks[b][0], tb)] + toks[b + 1:]
        if valid_raw(ta[1:]):
            reject(ctx, joined(m, r), "two strings with one quote each on different lines")
            ctx.counts["strings with one quote"] += 2
    still_usable(ctx, "broken")


# declarations with the tokens that cannot be left out marked
REQUIRED = """
«targetScope» «=» «'tenant'»
«import» «'az'»
«import» «*» «as» «x» «from» «'a.bicep'»
«import» «{» «a» «}» «from» «'a.bicep'»
«import» «{» a , b «as» «c» «}» «from» «'a.bicep'»
«import» «foo» «from» «'a.bicep'»
«extension» «k8s»
«extension» «k8s» «as» «a»
«extension» «k8s» «with» «{» k «:» «1» «}»
«metadata» «a» «=» «'b'»
«param» «a» «string»
«param» «a» «string» «=» «'x'»
«param» «a» «(» «string» «|» «int» «)»
«param» «a» «string» «[» «]»
«var» «a» «=» «1»
«var» «a» string «=» «'x'»
«var» «a» «=» «[» «for» «i» «in» «c» «:» «{» «}» «]»
«var» «a» «=» «[» «for» «(» «i» «,» «n» «)» «in» «c» «:» «{» «}» «]»
«output» «a» «string» «=» «b»
«resource» «r» «'A/b@1'» «=» «{» «}»
«resource» «r» «'A/b@1'» existing «=» «{» «}»
«resource» «r» «'A/b@1'» «=» «if» «(» «c» «)» «{» «}»
«resource» «r» «'A/b@1'» «=» «[» «for» «i» «in» «c» «:» «{» «}» «]»
«resource» «r» «'A/b@1'» «=» «{» «resource» «c» «'s'» «=» «{» «}» «}»
«module» «m» «'./m.bicep'» «=» «{» «}»
«module» «m» «'./m.bicep'» «=» «if» «(» «c» «)» «{» «}»
«type» «t» «=» «string»
«type» «t» «=» «'a'» «|» «'b'»
«func» «f» «(» «)» «string» «=>» «'x'»
«func» «f» «(» «a» «string» «,» «b» «int» «)» «string» «=>» «a»
«@» «secure» «(» «)» «param» «a» «string»
«@» «allowed» «(» «[» 1 «]» «)» «var» «a» «=» «1»
""".strip().split("\n")


def required(line):
    toks = line.split(" ")
    return [t.strip("«»") for t in toks], [k for k, t in enumerate(toks) if t.startswith("«")]


def missing_cases():
    out = []
    for n, line in enumerate(REQUIRED):
        toks, req = required(line)
        for k in req:
            out.append((n, toks, k))
    return out


def still_valid(toks, k):
    """leaving token k out leaves another well-formed declaration"""
    return " ".join(toks[:k] + toks[k + 1:]) in ("var string = 'x'",)


MISSING = missing_cases()
AFTER = ["", "\nvar z = 1", "\nparam z string", "\nimport * as z from 'q'", "\n@secure()\nparam z int", "\nmetadata z = 'q'", "\nresource z 'A/b@1' = {}", "\n\n// end", "\nfunc z() int => 1",
         "\ntype z = int", "\nextension z", "\noutput z int = 1", "\nmodule z 'q' = {}", "\ntargetScope = 'tenant'"]


def c18_missing(ctx, i):
    """every token a declaration needs, left out, with every kind of declaration behind it"""
    n, toks, k = MISSING[i]
    whole = " ".join(toks)
    o = ctx.parse(whole)
    if not o.ok:
        ctx.counts["complete declaration rejected (judged by other properties)"] += 1
    if still_valid(toks, k):
        ctx.ran(whole, False)
        return
    for b in ("", "var q = 1\n"):
        for a in AFTER:
            if toks[0] == "targetScope" and "targetScope" in a:
                continue
            reject(ctx, b + " ".join(toks[:k] + toks[k + 1:]) + a, f"{toks[k]!r} missing from {whole!r}")
    # twice the same token: keywords, marks and brackets; never names (separators are optional in places)
    if toks[k] in ("=", "=>", "targetScope", "import", "metadata", "param", "extension", "in", "from", "@", "(", ")", "[", "]", "{", "}"):
        reject(ctx, " ".join(toks[:k] + [toks[k]] + toks[k:]), f"{toks[k]!r} twice in {whole!r}")
    # a line break inside the head of a declaration ends it
    head = next((j for j, t in enumerate(toks) if t in ("=", "=>")), len(toks))
    if toks[0] not in ("@", "func", "import") and 0 < k <= head and toks[k] != "if" and "(" not in toks[:k] and "{" not in toks[:k]:
        reject(ctx, " ".join(toks[:k]) + "\n" + " ".join(toks[k:]), f"line break in front of {toks[k]!r} of {whole!r}")
    still_usable(ctx, "missing")


BADVALUES = """( a + )|( + a )|( a b )|( )|( a , b )|( a ? b )|( a ? b : )|( a ? : c )|( a : b )|( ? )|( a . )|( . a )|( a :: )|( :: a )|( a [ ] )|( 'a' 'b' )|f ( , 1 )|f ( 1 , )
f ( 1 , , 2 )|f ( 1 2 )|f ( a = 1 )|f ( a : 1 )|[ 1 , , 2 ]|[ , 1 ]|[ 1 , ]|{ a : 1 , }|{ , a : 1 }|{ a }|{ a : }|{ : 1 }|{ a 1 }|{ a = 1 }|{ 1 : 2 }|{ a : 1 : 2 }|{ [ 1 ] : 2 }|{ 'a' 1 }|{ a : , b : 1 }
{ a , b }|{ ( a ) : 1 }|{ true }|{ a . b : 1 }|{ - a : 1 }|( ! )|( - )|( a => )|( => a )|( a == == b )|( a && )|( || a )|( a = b )|( a ; b )|( a & b )|( not a )|( a and b )|( a ** b )|( a ^ b )|( @ a )|( a ? )
( a ! b )|( ! )|( "a" )|( 'a' . )|( x [ 1 )|( x [ 1 ] ] )|( { ) }|( [ ) ]|{ ( } )|( .5 )|( 1a )|( a .. b )|( a ?. b )|( a -> b )|( a <> b )|( a === b )|( a !== b )|( a ++ )|( a <= )|( >= a )|( a ?? )|( ?? a )|( % 2 )|( a % )|( a * )|( * a )|( a / )
( / a )|( a =~ )|( a !~ )|( ~ a )|( a < )|( > a )|[ for x in y ]|[ for in y : z ]|[ for x y : z ]|[ for ( a ) in y : z ]|[ for ( a , b , c ) in y : z ]|[ for ( a , ) in y : z ]|[ for 1 in y : z ]|[ for x in : z ]|[ for x in y z ]|[ for x in y : ]|[ for 'x' in y : z ]
[ for x.y in z : 1 ]|[ for x in y : z|( a . listKeys ( , 1 ) )|( a . listKeys ( 1 , ) )|( a . listKeys ( 1 2 ) )|( a b ( ) )|( f ( ) g ( ) )|( 'a${b}' c )|( $ )|( a $ b )|( null null )|( true false )|( 1 2 )|( a . 'b' c )|( a [ 0 ] [ ] )|( a [ 0 , 1 ] )|( a [ ? ] )|( a , b => c => )|( a , => b )|( , a => b )
( ( ) )|( ( a )|( a ) )|[ ( ]|[ [ ]|{ a : { }|( f ( )|( f ( a )|( a ? ( b : c ) )|( a ? b : c : d )|( a ( b )|( sys. )|( az. )|( sys. f )|( a .. b )|( a ::: b )|( ' )|( ''' )|( '${' )|( '${a' )|( '\\' )""".replace("||", "\0").replace("\n", "|").split("|")
BADVALUES = list(dict.fromkeys(v.replace("\0", "||") for v in BADVALUES))


def c18_values(ctx, i):
    """malformed values in every position a value can take"""
    toks = BADVALUES[i].split(" ")
    ctx.seen("malformed values", BADVALUES[i])
    # without separators an array of names can look like a loop where no loop can stand
    for n, pos in enumerate(["var"] if toks[:2] == ["[", "for"] else POS):
        # quotes left open pair up with later ones
        d = place(pos, "x", ("raw", toks))
        if BADVALUES[i].count("'") % 2 or "${" in BADVALUES[i] or "\\" in BADVALUES[i]:
            if "'" in "".join(t for _, t in Doc([place(pos, "x", ("id", "v"))]).tokens()):
                continue
        text = joined(Doc([d] if n % 2 else [Var("before", N(1)), d, Param("after", ("name", "string"))]).tokens(), ctx.rng)
        reject(ctx, text, f"malformed value {BADVALUES[i]} as {pos}")
    still_usable(ctx, "values")


JUNK = ["foo", "1", "'x'", "a = 1", "a: 1", "{ }", "{", "}", "[1]", "]", ")", "(a)", "=", "foo()", "var", "var x", "var x =", "param x", "param", "resource", "resource r", "resource r 'a@1'", "resource r 'a@1' =",
        "variable x = 1", "VAR x = 1", "Var x = 1", "Param a int", "using './x'", "assert a = true", "provider x 'y'", "let x = 1", "targetscope = 'tenant'", "const a = 1", "var a := 1", "var 1a = 1", "var a-b = 1",
        "var a.b = 1", "var 'a' = 1", "param a 'x'|'y'", "output o string", "output o = 1", "module m", "module m './a' {}", "module './a' = {}", "type T", "type = int", "func f() =>", "func f() string", "func f() => 1", "func f(a) string => a",
        "func f string => 1", "func (a int) string => a", "func f(a int,) string => a", "func f(int) => 1", "import", "import a", "import {a}", "import {} from 'x'", "import {a,} from 'x'", "import 'x' from 'y'", "import * from", "import {a b} from 'x'",
        "import {a as} from 'x'", "import {as b} 'x'", "import a as 'b' from 'x'", "metadata x", "metadata x = 1", "metadata x = y", "metadata = 'x'", "metadata x 'y'", "metadata 'x' = 'y'", "extension", "extension 'x' y", "extension k8s with", "extension k8s as",
        "extension k8s with x", "extension k8s as 'x'", "@secure", "@secure() foo", "@secure(", "@()", "@ secure() secure() param x int", "@'x'()", "@a.b.c()\nparam q int", "@secure() import 'x'", "@secure() metadata m = 'x'", "@secure() targetScope = 'tenant'", "@secure() extension x",
        "@description('a' 'b') param q int", "@description('a', 'b') param q int", "param x int string", "param x int = = 1", "param x int = 1 2", "param x int[", "param x int]", "param x [int]", "param x [] int", "param x int[1]", "param x (int)", "param x (int|)", "param x (|int)", "param x (int || string)", "param x 'a'",
        "param x (int, string)", "param x {}", "param x 1", "var x int 1", "var x == 1", "var x = 1 = 2", "var = 1", "var x = 1 2", "var x = 1,", "var x = , 1", "var x, y = 1", "resource r 'a@1' = 1", "resource r 'a@1' = [1]", "resource r 'a@1' = x", "resource r 'a@1' = 'x'", "resource r a@1 = {}", "resource 'r' 'a@1' = {}",
        "resource r 'a@1' existing {}", "resource r existing 'a@1' = {}", "resource r 'a@1' Existing = {}", "resource r 'a@1' new = {}", "resource r 'a@1' = if {}", "resource r 'a@1' = if (x)", "resource r 'a@1' = if x {}", "resource r 'a@1' = if () {}", "resource r 'a@1' = [for x in y: {}", "resource r 'a@1' = for x in y: {}",
        "resource r 'a@1' = {} {}", "resource r 'a@1' = { resource }", "resource r 'a@1' = { resource c }", "resource r 'a@1' = { resource c 'd' }", "resource r 'a@1' = { resource c 'd' = }", "resource r 'a@1' = { resource c 'd' {} }", "resource r 'a@1' = { module c 'd' = {} }", "resource r 'a@1' = { @secure() a: 1 }",
        "resource r 'a@1' = { param x int }", "resource r 'a@1' = { var x = 1 }", "module m './a' = 1", "module m './a' existing = {}", "module m a = {}", "module m './a@1' = [ ]", "\"x\"", "<xml/>", "- 1", "! x", "a.b", "a[0]", "x => y", "[for x in y: z]", "if (x) {}", "/*", "/* /* */ */", "*/", "'", "'''", "''' '", "''''", "'${", "'${a'", "'\\'", "'a'b'",
        "''a", "$", "\\", "@", "#\nfoo", "// x\nfoo", "/* x */ foo", "\x00", "\ufffe", "é = 1", "var é = 1", "var x = é", "var ｘ = 1", "param x ｓtring", "var x = “a”", "var x = 1;", "var x = 1; var y = 2", "targetScope", "targetScope =", "targetScope = tenant", "targetScope 'tenant'", "targetScope = 'a' 'b'", "targetScope = '''tenant'''",
        "targetScope = ['tenant']", "targetScope == 'tenant'", "targetScope: 'tenant'"]
# keywords that run into the next word
JUNK += ["importx from 'a.bicep'", "import1 from 'a.bicep'", "import_ from 'a.bicep'", "extensionk8s", "extensionk8s as x", "extension_ with {}", "resourcer 'A/b@1' = {}", "resource_ 'A/b@1' existing = {}", "modulem './a.bicep' = {}", "paramx int", "param1 int", "varx = 1", "outputx int = 1", "typet = int",
         "funcf() int => 1", "metadatam = 'x'", "targetScopes = 'tenant'", "import a asb from 'x'", "import {a asb} from 'x'", "extension k asb", "var x = [fori in y: i]", "var x = [for i iny: i]", "resource r 'A/b@1' existings = {}", "import {a} fromx 'x'", "resource r 'A/b@1' = ifx (a) {}",
         "resource r 'A/b@1' = {\n  resourcec 'd' = {}\n}", "extension k withx {}", "var x = [for (i, j) iny: i]", "resource r 'A/b@1' = [fori in y: {}]", "var x = [for1 in y: i]", "import * asx from 'y'"]
# strings that do not end on their line
JUNK += ["var x = 'a\nb'", "var x = 'a\rb'", "var x = 'a\r\nb'", "var x = 'a\\\nb'", "var x = '\n'", "var x = '${a}\n'", "var x = '\n${a}'", "param x string = '\n'", "var x = {\n  a: 'x\n'\n}", "resource r 'A/b\n@1' = {}", "module m './a\n.bicep' = {}", "var x = 'a\nvar y = b'", "var x = 'a\nvar y = 'b",
         "var x = 'a\nvar y = 'b'", "var x = 'a\nvar y = 1\nvar z = b'", "targetScope = 'ten\nant'", "import 'a\n'", "import {a} from 'x\n'", "metadata x = 'y\n'", "@description('a\nb')\nparam q int", "type x = 'a\n'", "type x = 'a' | 'b\n'", "var x = f('a\n', 'b')", "var x = {\n  'a\nb': 1\n}", "var x = [\n  'a\n  'b\n]",
         "var x = '${'a\n'}'", "var x = '${'a'}\n'", "var x = {\n  a: 'it\n  b: 's'\n}", "var x = a['b\n']", "var x = 'it's\nvar y = 'me", "var x = a.b('c\n')", "extension 'a\n'", "func f() string => 'a\n'", "output o string = 'a\n'"]
JUNK = list(dict.fromkeys(JUNK))


def c18_junk(ctx, i):
    """a line that is no declaration, alone and at every place between declarations"""
    junk = JUNK[i % len(JUNK)]
    r = ctx.rng
    ctx.seen("junk lines", junk)
    reject(ctx, junk, "no declaration")
    reject(ctx, junk + "\n", "no declaration")
    if junk in ("'", "'''", "''' '", "''''", "'${", "'${a'", "'\\'", "'a'b'", "/*", "''a", "*/"):
        pool = ["var q1 = 1", "param q2 int", "output q3 int = q1", "func q4() int => 2", "type q5 = int", "extension q6"]
    else:
        pool = [joined(Doc([small(k, "q" + k, i + j)]).tokens(), r).strip("\n") for j, k in enumerate(KINDS)]
    r.shuffle(pool)
    for pos in range(len(pool) + 1):
        part = pool[:r.randint(0, len(pool))] if pos % 2 else pool
        k = min(pos, len(part))
        reject(ctx, "\n".join(part[:k] + [junk] + part[k:]) + "\n", f"{junk!r} between declarations")
    still_usable(ctx, junk)


BADSCOPES = ["", "Tenant", "resourcegroup", " tenant", "tenant ", "global", "ResourceGroup", "${x}", "tenant\\n", "managementgroup", "resourceGroups", "tenants", "Subscription", "subscription,tenant", "none", "resourceGroup'", "0", "*", "t", "\\u{74}enant"]
BADTYPES = ["a", "", "A/b", "Microsoft.X/y", "a@1@2", "@", "a@", "@1", "a@@1", "A/b@2020-01-01@", "@a@1", "a#1", "a:1"]


def c18_semantic(ctx, i):
    """illegal scope, resource reference without version, malformed module reference: inside otherwise good documents"""
    r = ctx.rng
    kinds = [("targetScope = '%s'", BADSCOPES), ("resource r '%s' = {}", BADTYPES), ("resource r '%s' existing = {\n  name: 'x'\n}", BADTYPES), ("resource r '%s' = if (c) {}", BADTYPES), ("@batchSize(1)\nresource r '%s' = [for x in y: {}]", BADTYPES),
             ("module m '%s' = {}", BADREFS), ("module m '%s' = [for x in y: {}]", BADREFS)]
    flat = [(t, v) for t, vs in kinds for v in vs]
    t, v = flat[i % len(flat)]
    if "'" in v and "\\'" not in v:
        v = v.replace("'", "")
        if v in ("resourceGroup", "tenant", "subscription", "managementGroup"):
            return ctx.ran(t % v, False)
    bad = t % v
    ctx.seen("illegal", bad)
    reject(ctx, bad, "illegal reference", tree=False)
    pool = [joined(Doc([small(k, "q" + k, i + j)]).tokens(), r).strip("\n") for j, k in enumerate(KINDS[1:])]
    for pos in (0, 5, 10):
        r.shuffle(pool)
        reject(ctx, "\n".join(pool[:pos] + [bad] + pool[pos:]), "illegal reference", tree=False)
    still_usable(ctx, bad)


def c18_misplaced(ctx, i):
    """a nested resource in an object that is no body of a resource; at the top of a body it is accepted"""
    r = ctx.rng
    g = G(r, None, r.choice([0, 1, 2]))
    inner = g.obj(1) if i % 2 else ("obj", [], [])
    child = ("child", Resource(g.name(), r.choice(["subnets", "a/b", "s"]), None, ("deploy", I("c"), inner) if i % 5 == 0 else inner, i % 3 == 0, nested=True))
    pairs = [("pair", "k%d" % j, g.value(), False) for j in range(r.choice([0, 0, 1, 2]))]
    pairs.insert(r.randint(0, len(pairs)), child)
    v = ("obj", pairs, ["nl"] * (len(pairs) - 1))
    pos = POS[i % len(POS)]
    bad = joined(Doc([place(pos, "m1", v)]).tokens(), r)
    ctx.seen("misplaced", pos)
    reject(ctx, bad, f"nested resource in the position {pos}", tree=False)
    body = joined(Doc([Module("m2", ("./m.bicep", "local", {}), [v, ("deploy", I("c"), v), ("loop", "i", None, I("c"), None, v)][i % 3])]).tokens(), r)
    reject(ctx, body, "nested resource in the body of a module", tree=False)
    # next to good ones, and inside of them
    good = lambda n, *more: Resource(n, "A/b", "1", ("obj", [("child", Resource("c", "s", None, ("obj", list(more), []), nested=True))], []))      # noqa: E731
    reject(ctx, joined(Doc([good("g1"), place(pos, "m1", v), good("g2")]).tokens(), r), "misplaced nested resource between good ones", tree=False)
    reject(ctx, joined(Doc([good("g1", ("pair", "properties", v, False))]).tokens(), r), "misplaced nested resource in a nested resource", tree=False)
    for d in (good("g1"), good("g1", child), Resource("g1", "A/b", "1", v)):
        text = joined(Doc([d]).tokens(), r)
        o = ctx.parse(text)
        ctx.ran(text)
        if not o.ok:
            ctx.fail(f"nested resource in the body of a resource rejected: {o!r}", text=text)
    still_usable(ctx, "misplaced")


def c18_garbage(ctx, i):
    """arbitrary damage: whatever comes out is a result or an ordinary error, both entry points agree, and the parser goes on"""
    r = ctx.rng
    text = joined(base_doc(r).tokens(), r, style_of(r, 0.4))
    for _ in range(3):
        t = text
        for _ in range(r.choice([1, 1, 2, 5])):
            k = r.randint(0, len(t))
            m = r.randrange(6)
            if m == 0:
                t = t[:k] + t[k + r.randint(1, 4):]
            elif m == 1:
                t = t[:k] + r.choice(["'", "'''", "${", "}", "{", "(", ")", "[", "]", "/*", "*/", "//", "\n", "\\", ",", ":", "?", "@", "=", "=>", "|", ".", "::", "!", " for ", " if ", " in ", "resource ", "\r", "\t", "0", "sys.", "#"]) + t[k:]
            elif m == 2:
                j = r.randint(0, len(t))
                t = t[:k] + t[min(k, j):max(k, j)][:40] + t[k:]
            elif m == 3:
                t = t[:k] + chr(r.choice([r.randrange(128), r.randrange(256), r.randrange(0xD7FF)])) + t[k + 1:]
            elif m == 4:
                t = t[:k]
            else:
                t = t[k:]
        o, d = ctx.parse(t, bool(i % 2)), ctx.tree(t)
        ctx.ran(t, nontrivial=True)
        ctx.counts["damaged documents " + ("accepted" if o.ok else "rejected")] += 1
        if o.ok and not d.ok:
            ctx.fail(f"parse gives a result, the tree dump fails: {d!r}", text=t)
        if o.ok and (type(o.value) is not dict or "globals" not in o.value):
            ctx.fail("a call returned something else than a result", text=t, actual=repr(o.value)[:500])
        if o.ok or d.ok:
            may = may_be(t)
            ctx.counts[f"accepted damaged documents the recogniser has {dict([(True, 'a'), (False, 'no'), (None, 'not looked for a')])[may]} reading for"] += 1
            if may is False:
                ctx.fail("malformed document accepted: an independent recogniser finds no reading of it", text=t, actual=repr(o.value)[:1000])
        # brackets that do not pair up never have a reading (strings and comments left out of account when there are none)
        if o.ok and not any(q in t for q in ("'", "//", "/*", "#")) and not paired(t):
            ctx.fail("unpaired brackets accepted", text=t, actual=repr(o.value)[:1000])
    still_usable(ctx, text)


MUTANTS = ["(", ")", "[", "]", "{", "}", ",", ":", "?", "!", "|", ".", "=", "=>", "==", "::", "@", "-", "+", "*", "&&", "||", "??", "<", ">", "!=", "!~", "=~", "..", "?.", "&", "~", "%", "/", "for", "in", "if", "a", "x", "resource", "existing",
           "null", "true", "1", "'s'", "''", "'''m'''", "'${a}'", "sys.", "az.", "f(", "param", "var", "type", "as", "from", "with", "import", "string", "func", "output", "module", "metadata", "extension", "targetScope", "listKeys(", "@secure()", "//c\n", "/*c*/", "#h\n", "\n"]


def c18_mutants(ctx, i):
    """tokens of a good document lost, doubled, exchanged, swapped or added; whatever an independent, more tolerant recogniser has no reading for must be rejected"""
    r = ctx.rng
    toks = base_doc(r, r.choice([0, 1, 1, 2]), simple=bool(i % 3 == 0)).tokens()
    if len(toks) > 160:
        toks = toks[:160]
    for _ in range(4):
        m = list(toks)
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            k = r.randrange(len(m) + 1)
            o = r.randrange(6)
            if o == 0 and k < len(m):
                ctx.seen("tokens lost", m[k][1][:12])
                del m[k]
            elif o <= 2:
                new = r.choice(MUTANTS)
                ctx.seen("tokens added", new)
                m.insert(k, (r.choice(["ws", "nl"]), new))
            elif o == 3 and k < len(m):
                m[k] = (m[k][0], r.choice(MUTANTS))
            elif o == 4 and k < len(m):
                m.insert(k, m[k])
            elif k + 1 < len(m):
                m[k], m[k + 1] = (m[k][0], m[k + 1][1]), (m[k + 1][0], m[k][1])
        if not m:
            continue
        text = joined(m, r, style_of(r, 0.15))
        may = may_be(text)
        ctx.counts["mutants " + {True: "with a possible reading", False: "without any reading", None: "not decided"}[may]] += 1
        if may is False:
            reject(ctx, text, "an independent recogniser finds no reading of it")
    still_usable(ctx, "mutants")


HOSTS = ["{ @ }", "{ a : 1 @ }", "{ a : 1 @ b : 2 }", "{ @ a : 1 }", "[ @ ]", "[ 1 @ ]", "[ 1 @ 2 ]", "[ @ 1 ]", "( @ a )", "( a @ )", "( a @ b )", "f ( @ )", "f ( a @ )", "f ( a @ b )", "a . b @ c", "a . f ( @ )", "a [ @ ]", "a [ 0 @ ]", "a @ ? b : c", "a ? @ : c", "a ? b @ : c", "a ? b : @ c",
         "x @ => y", "x => @ y", "( x , y ) @ => x", "( x @ , y ) => x", "- @ a", "! @ a", "a == @ b", "a @ && b", "{ 'k' @ : 1 }", "{ k : @ 1 }", "[ for @ x in y : z ]", "[ for x @ in y : z ]", "[ for x in @ y : z ]", "[ for x in y @ : z ]", "[ for x in y : @ z ]", "[ for x in y : z @ ]", "[ for ( x @ , i ) in y : z ]", "[ for ( x , i @ ) in y : z ]"]


def c18_inserted(ctx, i):
    """every token at every place of every form of value"""
    h = HOSTS[i // len(MUTANTS)]
    t = MUTANTS[i % len(MUTANTS)]
    text = "var x = " + h.replace("@", t) + "\nparam y string\n"
    ctx.seen("token/place", (h, t))
    may = may_be(text)
    ctx.counts["insertions " + {True: "with a possible reading", False: "without any reading", None: "not decided"}[may]] += 1
    if may is False:
        reject(ctx, text, "an independent recogniser finds no reading of it")
    else:
        ctx.ran(text, False)
    if i % 10 == 0:
        still_usable(ctx, text)


def paired(t):
    st = []
    for c in t:
        if c in "([{":
            st.append(c)
        elif c in ")]}":
            if not st or st.pop() + c not in ("()", "[]", "{}"):
                return False
    return not st


def c18_history(ctx, i):
    """a long row of failing calls on one parser, good documents in between"""
    r = ctx.rng
    p = ctx.new_parser(False)
    g = G(r, None, 1)
    docs = [joined(g.doc(2).tokens(), r) for _ in range(4)]
    wants = []
    for d in docs:
        o = ctx.parse(d, parser=ctx.new_parser(False)) if i % 4 == 0 else ctx.parse(d)
        wants.append(o)
    for n in range(40):
        bad = r.choice(JUNK) if r.random() < 0.6 else joined(docs and [("ws", docs[0][: r.randint(1, len(docs[0]))] + " {")], r)
        o = ctx.parse(bad, parser=p) if n % 3 else ctx.tree(bad, parser=p)
        if n % 5 == 4:
            k = r.randrange(4)
            o = ctx.parse(docs[k], parser=p)
            ctx.ran(docs[k] + bad)
            if o.ok != wants[k].ok or (o.ok and diff_actual(wants[k].value, o.value)) or (not o.ok and (type(o.error), where(o.error)) != (type(wants[k].error), where(wants[k].error))):
                ctx.fail(f"after {n} failing calls a document is handled differently: {o!r}", text=docs[k], after=bad)


# --- C17 ---------------------------------------------------------------------
def write(ctx, data, name=None):
    d = os.path.join(ctx.scratch, f"w{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    p = pathlib.Path(d) / (name or f"f{ctx.counts['files written']}.bicep")
    ctx.counts["files written"] += 1
    p.write_bytes(data)
    return p


NONASCII = ["ü", "日本語", "😀", "é", "\u00a0", "\u2028", "ß", "Ω", "‘", "\u0085", "\x1c", "ﬁ", "\ud7ff", "\U0010ffff", "\ufeff", "İ", "e\u0301", "\x7f"]


def spiced(r, depth=None):
    """a document text with non-ASCII strings and comments"""
    g = G(r, {"ml": 0 if r.random() < 0.5 else 1}, r.choice([0, 1, 2]) if depth is None else depth)
    raw0 = g.raw
    g.raw = lambda interp=True: raw0(interp) if r.random() < 0.5 else "".join(r.choice(NONASCII + ["a", " "]) for _ in range(r.randint(1, 6)))
    text = joined((large(r)[1] if depth is None and r.random() < 0.05 else g.doc(r.choice([0, 1, 2, 4]) or 1)).tokens(), r, style_of(r, 0.5))
    if r.random() < 0.5:
        text += "// " + "".join(r.choice(NONASCII) for _ in range(3)).replace("\u2028", "") + "\n"
    return text


def same_outcome(a, b, names=()):
    """both results equal, or both errors of the same kind (texts equal apart from naming the file)"""
    if a.ok != b.ok:
        return f"one call: {a!r}, the other: {b!r}"
    if a.ok:
        if isinstance(a.value, str):
            return None if a.value == b.value else "different dumps"
        d = diff_actual(a.value, b.value)
        return f"results differ at {d}" if d else None
    if type(a.error) is not type(b.error):
        return f"one call fails with {a!r}, the other with {b!r}"
    if where(a.error) != where(b.error):
        return f"one call fails with {a!r}, the other with {b!r}"
    return None


def where(e):
    """the place an error names, or its text"""
    if getattr(e, "line", None) is not None:
        return e.line, getattr(e, "column", None)
    return "" if type(e) is ValueError else str(e)


def snap(p):
    s = os.stat(p)
    with open(p, "rb") as f:
        return f.read(), s.st_mtime_ns, s.st_mode, s.st_ino, s.st_size, s.st_nlink


def both(ctx, text, path, lines, via="", other=None):
    """the same document as text (or another reading of it) and as file through both entry points"""
    parser = ctx.parser(lines)
    before, names = snap(path), sorted(os.listdir(path.parent))
    a, b = ctx.parse(text, lines), ctx.call(parser.parse, file_path=path)
    ta, tb = ctx.tree(text, parser), ctx.call(parser.create_tree, file_path=path)
    ctx.ran(text + via)
    c, tc = (ctx.parse(other, lines), ctx.tree(other, parser)) if other is not None else (a, ta)
    for x, y, z, what in ((a, b, c, "parse"), (ta, tb, tc, "create_tree")):
        if (m := same_outcome(x, y)) and same_outcome(z, y):
            ctx.fail(f"{what}: text and file{via} are treated differently: {m}", text=text)
    ctx.counts["files " + ("accepted" if b.ok else "rejected")] += 1
    if snap(path) != before or sorted(os.listdir(path.parent)) != names:
        ctx.fail("the input file or its directory was changed", text=text)
    return a, b


def c17_docs(ctx, i):
    """documents with all kinds of characters as text and as file, with and without byte order mark, with LF and CRLF"""
    r = ctx.rng
    text = spiced(r)
    if i % 6 == 5:
        text = r.choice([text + "\n{", text[:len(text) // 2], text + "'", text + "'''", "var a = '''ü\n" + text])
    other = None
    if "\r" in text and ("'''" in text or i % 6 == 5):
        # reading text may convert line endings, inside multi-line strings too, or not; so may the columns of errors
        other = text.replace("\r\n", "\n")
    if text.replace("\r\n", "").count("\r"):
        return ctx.ran(text, False)
    bom = b"\xef\xbb\xbf" if i % 2 else b""
    try:
        data = bom + text.encode("utf-8")
    except UnicodeEncodeError:
        return ctx.ran(text.encode("utf-8", "surrogatepass"), False)
    if not bom and text.startswith("\ufeff"):
        return ctx.ran(text, False)
    p = write(ctx, data)
    try:
        both(ctx, text, p, bool(i % 3 == 0), " with byte order mark" if bom else "", other)
        ctx.seen("non-ASCII characters in documents", "".join(sorted({c for c in text if ord(c) > 127})[:3]))
    finally:
        p.unlink()


def c17_big(ctx, i):
    """long files: sizes at and around the buffer sizes of reading, characters of several bytes across the borders"""
    r = ctx.rng
    c = ["x", "ü", "日", "😀", "\u2028", "a\u0301"][i % 6]
    size = r.choice([4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20, (1 << 20) + (1 << 18), 1 << 21] + ([1 << 22, 1 << 23] if ctx.tier != "quick" else [])) + r.randrange(-8, 9)
    nl = r.choice(["\n", "\n", "\r\n"])
    head = f"var a = 'start'{nl}"
    tail = f"var z = 'end {c}'{nl}output o string = z"
    n = max(1, (size - len((head + tail).encode())) // len(c.encode()))
    how = i // 6 % 4
    if how == 0:
        mid = f"var m = '{c * n}'"
    elif how == 1:
        mid = "//" + c * n
    elif how == 2:
        k = max(1, n // 20000)
        mid = nl.join(f"var m{j} = '{c * (n // k)}'" for j in range(k))
    else:
        mid = nl * (n if len(c) == 1 else n // 2)
    text = head + mid + nl + tail
    p = write(ctx, (b"\xef\xbb\xbf" if i // 24 % 2 else b"") + text.encode())
    try:
        a, b = both(ctx, text, p, bool(i % 2))
        if not (a.ok and b.ok):
            ctx.fail("a well-formed long document is rejected", text=text[:300], size=len(text))
        elif "z" not in b.value.get("variables", {}) or "o" not in b.value.get("outputs", {}):
            ctx.fail("the end of a long file is missing from the result", text=text[:300], size=len(text))
        ctx.seen("sizes of long files", str(len(text.encode()) >> 12 << 12))
    finally:
        p.unlink()


def c17_paths(ctx, i):
    """all ways of naming a file"""
    r = ctx.rng
    text = spiced(r, 0).replace("\r\n", "\n")
    names = ["a.bicep", "no_extension", "with space.bicep", "ümläut 日本.bicep", "-dash", "x" * 200, "a.json", "'quote'.bicep", "new\nline", "${x}.bicep", "%s.bicep", ".hidden", "{0}.bicep", "\udcff.bicep"]
    name = names[i % len(names)]
    p = write(ctx, text.encode("utf-8", "replace"), name)
    text = text.encode("utf-8", "replace").decode()
    lines = bool(i % 2)
    cwd = os.getcwd()
    try:
        both(ctx, text, p, lines)
        link = p.parent / "the link"
        link.symlink_to(p)
        both(ctx, text, link, lines, " through a symbolic link")
        link.unlink()
        hard = p.parent / "hard"
        os.link(p, hard)
        both(ctx, text, hard, lines)
        hard.unlink()
        sub = p.parent / "sub"
        sub.mkdir(exist_ok=True)
        both(ctx, text, sub / ".." / name, lines, " through ..")
        os.chdir(p.parent)
        both(ctx, text, pathlib.Path(name), lines, " by relative path")
        os.chdir(sub)
        both(ctx, text, pathlib.Path("..") / name, lines, " by relative path")
        os.chmod(p, 0o444)
        both(ctx, text, p, lines, " read-only")
        # names that something else than pathlib would expand
        os.chdir(sub)
        for d in r.sample(["~", "~root", "$HOME", "${HOME}", "%41", "*", "a?", "[ab]", "file:", "http:", "C:", "%USERPROFILE%", "`pwd`", "{a,b}"], 3):
            os.mkdir(d)
            for q in (pathlib.Path(d) / "x.bicep", pathlib.Path(".") / d / "x.bicep", sub / d / "x.bicep"):
                q.write_bytes(text.encode("utf-8"))
                both(ctx, text, q, lines, " in a directory with an odd name")
                q.unlink()
            os.rmdir(d)
            ctx.seen("names of directories", d)
        for n in ["~", "~.bicep", "$HOME", "*"]:
            pathlib.Path(n).write_bytes(text.encode("utf-8"))
            both(ctx, text, pathlib.Path(n), lines, " with an odd name")
            os.unlink(sub / n)
        ctx.seen("file names", name)
    finally:
        os.chdir(cwd)
        with contextlib.suppress(OSError):
            p.unlink()
        for q in list(p.parent.iterdir()):
            if q.is_symlink() or q.is_file():
                q.unlink()


def events_during(fn):
    """file opens seen by the interpreter while fn runs"""
    seen = []
    _audit["sink"] = seen
    try:
        return fn(), seen
    finally:
        _audit["sink"] = None


_audit = {"sink": None, "on": False}


def audit_on():
    if not _audit["on"]:
        def hook(name, args):
            if _audit["sink"] is not None and (name == "open" or name.startswith(("os.", "subprocess", "socket", "import"))):
                _audit["sink"].append((name, repr(args)[:200]))
        sys.addaudithook(hook)
        _audit["on"] = True


class Watched(type(pathlib.Path())):
    """a path that notes what is asked of it"""
    asked = None

    def read_text(self, *a, **k):
        Watched.asked.append("read_text")
        return super().read_text(*a, **k)

    def open(self, *a, **k):
        Watched.asked.append("open")
        return super().open(*a, **k)

    def read_bytes(self):
        Watched.asked.append("read_bytes")
        return super().read_bytes()


def c17_selection(ctx, i):
    """none or both of text and file: a type error before anything is read"""
    audit_on()
    good = write(ctx, b"var a = 1\n", "good.bicep")
    missing = good.parent / "missing.bicep"
    texts = ["", "var a = 1", "{", "var a = '''", "\n"]
    cases = [{}, {"text": None}, {"file_path": None}, {"text": None, "file_path": None}]
    for t in texts:
        for f in (good, missing, good.parent, pathlib.Path(""), pathlib.Path("."), Watched(str(good)), Watched(str(missing))):
            cases.append({"text": t, "file_path": f})
    for n, kw in enumerate(cases):
        for lines in (False, True):
            p = ctx.parser(lines)
            for what in ("parse", "create_tree"):
                Watched.asked = []
                o, ev = events_during(lambda: ctx.call(getattr(p, what), **kw))  # noqa: B023
                ctx.ran((n, lines, what), sample=f"{what}({kw})")
                if o.ok or not isinstance(o.error, TypeError):
                    ctx.fail(f"{what}({kw}) did not raise a TypeError: {o!r}")
                if Watched.asked or [e for e in ev if e[0] in ("open",) and str(good.parent) in e[1]]:
                    ctx.fail(f"{what}({kw}) read the file before complaining: {Watched.asked or ev}")
    # and the parser still works
    o = ctx.parse("var a = 1")
    if not o.ok:
        ctx.fail("the parser does not work after the errors")
    good.unlink()


BADBYTES = [b"var a = '\xfc'\n", b"// \xff\n", "var a = 1\n".encode("utf-16"), "var a = 1\n".encode("utf-16-le") + b"\xd8\x00", "var a = 1\n".encode("utf-32"), b"var a = '\xed\xa0\x80'\n", b"var a = '\xc0\x80'\n", b"var a = 'x'\n// \xe6\x97", b"\x80", b"var a = 1\n\xf5\x80\x80\x80",
            b"// \xc3(\nvar a = 1\n", b"\xfe\xff", b"var a = '\xf0\x9f\x98'\n", b"/* \xa9 */ var a = 1\n", b"\xef\xbb\xbf\xff", b"\xef\xbb", b"var a = 1 // caf\xe9\n", "param p string = 'Ä'\n".encode("latin-1"), "// €\n".encode("cp1252"), "// ж\n".encode("koi8-r"), "// 日\n".encode("shift-jis")]


def c17_bytes(ctx, i):
    """files that are not UTF-8"""
    data = BADBYTES[i % len(BADBYTES)]
    try:
        data.decode("utf-8-sig")
        raise HarnessError(f"{data!r} is UTF-8")
    except UnicodeDecodeError:
        pass
    for extra in (b"", b"var z = 1\n" * (1 + i % 3), b"//" + b"x" * 70000 + b"\n"):
        p = write(ctx, data + extra) if data.startswith((b"\xff", b"\xfe", b"\xef")) else write(ctx, extra + data)
        for lines in (False, True):
            for what in ("parse", "create_tree"):
                o = ctx.call(getattr(ctx.parser(lines), what), file_path=p)
                ctx.ran((data, len(extra), lines, what), sample=repr(data))
                if o.ok or not isinstance(o.error, UnicodeError):
                    ctx.fail(f"a file that is not UTF-8 ({data!r}) did not raise a decoding error: {o!r}")
        p.unlink()


def as_nobody(fn):
    """runs fn in a child without privileges; -> (what it returned) via a pipe"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            out = fn()
        except BaseException as e:
            out = {"harness": f"{type(e).__name__}: {e}"}
        try:
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while b := os.read(r, 65536):
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data or b'{"harness": "child died"}')


def c17_missing(ctx, i):
    """files that do not exist, directories, files that cannot be read"""
    d = pathlib.Path(ctx.scratch) / f"m{os.getpid()}"
    d.mkdir(exist_ok=True)
    (d / "f").write_text("var a = 1\n")
    with contextlib.suppress(FileExistsError):
        (d / "dangling").symlink_to(d / "nowhere")
        (d / "loop").symlink_to(d / "loop")
    cases = [(d / "no.bicep", FileNotFoundError), (d / "no" / "no.bicep", FileNotFoundError), (pathlib.Path("definitely-missing.bicep"), FileNotFoundError), (d, OSError), (d / "dangling", FileNotFoundError), (d / "f" / "x", OSError), (d / "loop", OSError),
             (d / ("x" * 300), OSError), (pathlib.Path(""), OSError)]
    for path, exc in cases:
        for lines in (False, True):
            for what in ("parse", "create_tree"):
                o = ctx.call(getattr(ctx.parser(lines), what), file_path=path)
                ctx.ran((str(path)[-40:], lines, what), sample=str(path))
                ctx.seen("file errors", o.kind())
                if o.ok or not isinstance(o.error, exc):
                    ctx.fail(f"{what}(file_path={str(path)!r}) should raise {exc.__name__}: {o!r}")
    o = ctx.call(ctx.parser(False).parse, file_path=d / "f")
    if not o.ok:
        ctx.fail(f"a good file is rejected after errors: {o!r}")
    # without privileges
    if os.geteuid() == 0:
        os.chmod(d, 0o755)
        os.chmod(d / "f", 0)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            parsers = {lines: ctx.parser(lines) for lines in (False, True)}

            def go():
                out = {}
                for lines, p in parsers.items():
                    for what in ("parse", "create_tree"):
                        try:
                            getattr(p, what)(file_path=pathlib.Path("f"))
                            out[f"{what} {lines}"] = "ok"
                        except Exception as e:
                            out[f"{what} {lines}"] = type(e).__name__
                return out
            res = as_nobody(go)
        finally:
            os.chdir(cwd)
            os.chmod(d / "f", 0o644)
        if "harness" in res:
            ctx.counts["unprivileged run impossible"] += 1
        else:
            for k, v in res.items():
                ctx.ran(("unreadable", k))
                ctx.seen("unreadable file", v)
                if v != "PermissionError":
                    ctx.fail(f"an unreadable file should raise PermissionError, {k}: {v}")


def c17_quotes(ctx, i):
    """unbalanced multi-line quotes: a value error, naming the file if there is one"""
    r = ctx.rng
    g = G(r, {"ml": 0}, 1)
    good = joined(g.doc(2).tokens(), r)
    opens = ["var q = '''abc\n", "var q = '''\n", "var q = [\n  '''x\n]\n", "param q string = '''", "var q = '''it''s\n", "@description('''\nx\n)\nparam q int\n", "var q = '''a''' b '''\n"]
    text = (good if i % 2 else "") + opens[i % len(opens)]
    if i % 3 == 2:
        # many closed ones in front of the one that is not
        n = r.choice([1, 5, 49, 99, 499, 999, 1500, 3001])
        text = f"var many = [\n" + "  '''a'''\n" * n + "]\n" + text
        ctx.seen("closed multi-line strings in front of an open one", n)
    if good.count("'''") % 2:
        return ctx.ran(text, False)
    names = ["a.bicep", "with space.bicep", "ü.bicep", "{x}.bicep", "%d.bicep", "f-string{}.bicep"]
    p = write(ctx, text.encode("utf-8", "replace"), names[i % len(names)])
    text = text.encode("utf-8", "replace").decode()
    lines = bool(i % 3)
    for what in ("parse", "create_tree"):
        t, f = ctx.call(getattr(ctx.parser(lines), what), text=text), ctx.call(getattr(ctx.parser(lines), what), file_path=p)
        ctx.ran((text, what))
        if t.ok or not isinstance(t.error, ValueError):
            ctx.fail(f"{what}: unbalanced quotes in a text should be a ValueError: {t!r}", text=text)
        if f.ok or not isinstance(f.error, ValueError):
            ctx.fail(f"{what}: unbalanced quotes in a file should be a ValueError: {f!r}", text=text)
        elif str(p) not in str(f.error):
            ctx.fail(f"{what}: the error does not name the file {p}: {f!r}", text=text)
        if not t.ok and str(p) in str(t.error):
            ctx.fail(f"{what}: the error for a text names a file: {t!r}", text=text)
    p.unlink()


def c17_empty(ctx, i):
    """empty documents"""
    blanks = ["", "\n", "\n\n", "\r\n", "\n\r\n", "// c", "// c\n", "\n// ü\n", "\n/* a */\n", "// a\n// b"]
    text = blanks[i % len(blanks)]
    for lines in (False, True):
        want = {"globals": {"scope": {"value": "resourceGroup", **({"__start_line__": 0, "__end_line__": 0} if lines else {})}}}
        for bom in (b"", b"\xef\xbb\xbf"):
            p = write(ctx, bom + text.encode(), f"e{i}.bicep")
            for o in (ctx.parse(text, lines), ctx.call(ctx.parser(lines).parse, file_path=p)):
                ctx.ran((text, lines, bom), sample=repr(text))
                if not o.ok or o.value != want:
                    ctx.fail(f"an empty document gives {o.value if o.ok else o!r} instead of {want}", text=text or "(empty)")
            a, b = ctx.tree(text, ctx.parser(lines)), ctx.call(ctx.parser(lines).create_tree, file_path=p)
            if m := same_outcome(a, b):
                ctx.fail(f"dump of an empty document: {m}", text=text or "(empty)")
            p.unlink()


LOCALE_CODE = """
import json, sys, pathlib, locale
import pycep
out = {"encoding": locale.getpreferredencoding(False), "results": []}
for f in sys.argv[1:]:
    for lines in (False, True):
        p = pycep.BicepParser(add_line_numbers=lines)
        try:
            out["results"].append([p.parse(file_path=pathlib.Path(f)), p.create_tree(file_path=pathlib.Path(f))])
        except Exception as e:
            out["results"].append(type(e).__name__)
print(json.dumps(out))
"""
LOCALES = [{"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}, {"PYTHONUTF8": "1", "LC_ALL": "C"},
           {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LANG": "de_DE.ISO-8859-1", "PYTHONIOENCODING": "ascii"}]


def child_env(ctx, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONUTF8", "PYTHONCOERCE", "PYTHONIOENC"))}
    env.update(extra or {})
    return env


def c17_locale(ctx, i):
    """files read in processes with other locales"""
    r = ctx.rng
    files, wants = [], []
    for n in range(6):
        text = spiced(r, 1).replace("\r\n", "\n")
        if "\r" in text:
            continue
        text = f"param u{n} string = 'ü日本😀'\n" + text
        try:
            data = text.encode()
        except UnicodeEncodeError:
            continue
        files.append(write(ctx, (b"\xef\xbb\xbf" if n % 2 else b"") + data, f"l{i}-{n}.bicep"))
        for lines in (False, True):
            a, b = ctx.parse(text, lines), ctx.tree(text)
            wants.append([a.value, b.value] if a.ok else type(a.error).__name__)
    loc = LOCALES[i % len(LOCALES)]
    pr = subprocess.run([sys.executable, "-B", "-c", LOCALE_CODE, *map(str, files)], env=child_env(ctx, loc), capture_output=True, timeout=300)
    if pr.returncode:
        ctx.ran(("locale", i))
        return ctx.fail(f"parsing files fails in locale {loc}: {pr.stderr[-1500:]!r}")
    out = json.loads(pr.stdout)
    ctx.seen("preferred encodings", out["encoding"])
    for w, g, n in zip(wants, out["results"], range(99)):
        ctx.ran(("locale", i, n, json.dumps(w)[:2000]), sample=f"{loc}: {json.dumps(w)[:300]}")
        if json.loads(json.dumps(w)) != g:
            ctx.fail(f"in locale {loc} file {n} gives another result", expected=json.dumps(w)[:2000], actual=json.dumps(g)[:2000])
    for f in files:
        f.unlink()


def c17_change(ctx, i):
    """a file that changes between calls is read anew each time"""
    r = ctx.rng
    p = write(ctx, b"", "change.bicep")
    st = None
    for n in range(6):
        text = spiced(r, 0).replace("\r\n", "\n").encode("utf-8", "replace").decode()
        if "\r" in text:
            continue
        # same size and modification time as before, other content
        p.write_text(text if n % 3 else "var a = %d\n" % n, encoding="utf-8", newline="")
        text = text if n % 3 else "var a = %d\n" % n
        if st:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        st = os.stat(p)
        both(ctx, text, p, bool(n % 2), " rewritten")
    p.unlink()


# --- C22 ---------------------------------------------------------------------
def is_syntax(e):
    import lark
    return isinstance(e, lark.UnexpectedInput) or (type(e) is ValueError and "invalid" in str(e))


class Unique(G):
    """every name, string and number of a document is another one"""

    def __init__(self, rng, depth):
        super().__init__(rng, {"ml": 1, "child": 0.3}, depth)
        self.n = 0
        self.texts = []

    def nxt(self):
        self.n += 1
        return self.n

    def word(self):
        return f"n{self.nxt()}q"

    def name(self):
        return self.word()

    def raw(self, interp=True):
        s = self.r.choice(["s%dq", "s%dq x-y", "s%dq ${v} z", "s%dq.b", "s%dq \\'e", "s%dq(", "s%dq}{"]) % self.nxt()
        if interp and self.r.random() < 0.3:
            t = s + G.raw(self)
            if valid_raw(t):
                return t
        return s

    def mlraw(self):
        return "m%dq" % self.nxt() + (self.r.choice(["", "\nline", " 'x' ", "\n\n"]) if self.r.random() < 0.5 else G.mlraw(self))

    def int(self):
        return ("int", 10**6 + self.nxt())

    def falsy(self):
        return self.int()

    def key(self):
        return self.word() if self.r.random() < 0.6 else "'" + self.raw() + "'"


def c22_contents(ctx, i):
    """every name and literal of a document whose names and literals are all different is in its dump, once, in order"""
    r = ctx.rng
    g = Unique(r, r.choice([0, 1, 2, 3]))
    c22_dump(ctx, g.doc())


def c22_repeated(ctx, i):
    """documents in which declarations, decorators, items, members, arguments and operands occur more than once"""
    r = ctx.rng
    g = Unique(r, r.choice([0, 1, 2]))
    g.depth = 1
    ds = list(g.doc(r.choice([1, 2, 3])).decls)
    again = lambda: r.choice([2, 2, 3, 10])  # noqa: E731
    leaf = lambda: r.choice([("str", g.raw(False)), ("id", g.name()), ("int", g.int()[1]), ("ml", f"m{g.nxt()}q")])  # noqa: E731
    v = leaf()
    n = again()
    ds.append(Var(g.name(), ("arr", [v] * n, [","] * (n - 1))))
    ds.append(Var(g.name(), ("call", g.name(), None, [v] * n)))
    k = g.name()
    ds.append(Var(g.name(), ("arr", [O((k, v))] * n, ["nl"] * (n - 1))))
    ds.append(Var(g.name(), ("bin", r.choice(["+", "==", "&&", "||", "??", "."]), ("id", k), ("id", k))))
    ds.append(Var(g.name(), ("bin", "+", v, ("bin", "+", v, v))))
    ds.append(TypeDecl(g.name(), [("str", g.raw(False))] * n))
    ds.append(Param(g.name(), ("name", k), None, False, [Deco(g.name(), False, v)] * n))
    ds.append(Import([(g.name(), g.name())] * n, "./" + g.raw(False), False))
    r.shuffle(ds)
    ds = ds[:r.choice([1, 3, 20])]
    if i % 2:
        ds = [d for d in ds for _ in range(again())] if i % 4 == 1 else ds * again()
    ctx.seen("repetitions", (n, i % 4))
    c22_dump(ctx, Doc(ds), None)


def c22_long(ctx, i):
    """long names and literals, many declarations, deep nesting: nothing is cut short"""
    r = ctx.rng
    g = Unique(r, 1)
    n = r.choice([64, 80, 100, 120, 128, 200, 256, 500, 512, 1000, 1024, 2000, 4096, 10000, 65536, 70000, 200000])
    k = i % 8
    ctx.seen("kind/size", (k, n))
    many = min(n, 1000 if ctx.tier == "quick" else 4000)
    deep = min(n, 60)
    if k == 0:
        ds = [Var(g.name() + "_" * n + "e", ("str", g.raw(False)))]
    elif k == 1:
        ds = [Var(g.name(), ("str", g.raw(False) + r.choice(["x", " ", "\\n", "é", "- "]) * n + g.raw(False)))]
    elif k == 2:
        ds = [Var(g.name(), ("ml", f"m{g.nxt()}q" + r.choice(["x", "\n", " ", "\t", "line\n"]) * n + f"m{g.nxt()}q"))]
    elif k == 3:
        ds = [Var(g.name(), ("int", int("1" + str(g.nxt()).zfill(8) + "0" * min(n, 4000))))]
    elif k == 4:
        ds = [Var(g.name(), ("arr", [("str", g.raw(False)) if j % 2 else ("id", g.name()) for j in range(many)], ["nl"] * (many - 1)))]
    elif k == 5:
        ds = [Var(g.name(), ("int", 1000000000 + g.nxt())) for _ in range(many)]
    elif k == 6:
        v = ("str", g.raw(False))
        for _ in range(deep):
            v = r.choice([("arr", [v], []), O((g.name(), v)), ("call", g.name(), None, [v]), ("bin", "+", ("paren", v), ("id", g.name()))])
        ds = [Var(g.name(), v)]
    else:
        v = ("id", g.name())
        for _ in range(min(n, 200)):
            v = ("prop", v, g.name(), False) if False else ("bin", "+", v, ("id", g.name()))
        ds = [Var(g.name(), v)]
    ds = [Var(g.name(), ("str", g.raw(False))), *ds, Param(g.name(), ("name", g.name()))]
    c22_dump(ctx, Doc(ds), PLAIN, brief=True)


def c22_dump(ctx, doc, style=None, brief=False):
    r = ctx.rng
    toks = doc.tokens()
    text = joined(toks, r, style or style_of(r, 0.3))
    o = ctx.parse(text)
    t = ctx.tree(text)
    ctx.ran(text, sample=text[:300] if brief else None)
    if not t.ok:
        if o.ok:
            ctx.fail(f"parse gives a result, the dump fails: {t!r}", text=text)
        return
    dump = t.value
    if type(dump) is not str:
        return ctx.fail(f"the dump is no text but {type(dump).__name__}", text=text)
    pos = 0
    import re
    mark = re.compile(r"(?:n|s|m)\d+q|\b10\d{5,}\b")
    seen = set()
    times = {}
    for _, tok in toks:
        times[tok] = times.get(tok, 0) + 1
    for _, tok in toks:
        ms = mark.findall(tok)
        if not ms:
            continue
        # the whole token with its quotes is in the dump
        if dump.count(tok) < 1:
            ctx.fail(f"{tok[:200]!r} ({len(tok)} characters) is not in the dump", text=text[:5000], actual=dump[:3000])
            return
        k = dump.find(tok, pos)
        if k < 0:
            ctx.fail(f"{tok[:200]!r} is not in source order in the dump", text=text[:5000], actual=dump[:3000])
            return
        pos = k + len(tok)
        if tok not in seen and times[tok] == 1 and not brief and len(re.findall(re.escape(ms[0]) + r"(?!\w)", dump)) > 1:
            ctx.fail(f"{ms[0]!r} is in the dump more than once", text=text[:5000], actual=dump[:3000])
            return
        seen.add(tok)
    ctx.counts["names and literals found in dumps"] += len(seen)
    again = ctx.tree(text)
    if not again.ok or again.value != dump:
        ctx.fail("two dumps of one text differ", text=text)
    other = ctx.tree(text, ctx.parser(True))
    if not other.ok or other.value != dump:
        ctx.fail("the dump depends on the line number option", text=text)


def c22_agree(ctx, i):
    """acceptance, errors and non-interference on good and damaged documents"""
    r = ctx.rng
    g = G(r, None, r.choice([0, 1, 2]))
    text = joined((large(r)[1] if i % 12 == 5 else g.doc()).tokens(), r, style_of(r, 0.4))
    cands = [text]
    for _ in range(2):
        k = r.randint(0, len(text))
        cands.append(r.choice([text[:k], text[:k] + text[k + 1:], text[:k] + r.choice("'{}()[]\\$,:?@=|.!\n") + text[k:]]))
    cands.append(r.choice(JUNK))
    for t in cands:
        lines = bool(r.getrandbits(1))
        order = r.randrange(3)
        if order == 0:
            p1, d = ctx.parse(t, lines), ctx.tree(t, ctx.parser(lines))
            p2 = ctx.parse(t, lines)
        elif order == 1:
            d, p1 = ctx.tree(t, ctx.parser(lines)), ctx.parse(t, lines)
            ctx.tree(t, ctx.parser(lines))
            p2 = ctx.parse(t, lines)
        else:
            ctx.tree(text, ctx.parser(lines))
            p1 = ctx.parse(t, lines)
            d = ctx.tree(t, ctx.parser(lines))
            p2 = ctx.parse(t, lines)
        ctx.ran(t)
        if m := same_outcome(p1, p2):
            ctx.fail(f"a dump in between changes what parse does: {m}", text=t)
        if p1.ok and not d.ok:
            ctx.fail(f"parse gives a result, the dump fails: {d!r}", text=t)
        elif not p1.ok and d.ok and is_syntax(p1.error):
            ctx.fail(f"the dump accepts what parse rejects for its syntax: {p1!r}", text=t, actual=d.value[:1000])
        elif not p1.ok and not d.ok and (type(p1.error) is not type(d.error) or (where(p1.error) or str(p1.error)) != (where(d.error) or str(d.error))):
            ctx.fail(f"parse fails with {p1!r}, the dump with {d!r}", text=t)
        ctx.counts["documents accepted" if d.ok else "documents rejected"] += 1


def c22_fresh(ctx, i):
    """dumps of fresh and used parsers are the same"""
    r = ctx.rng
    texts = [joined(G(r, None, 2).doc().tokens(), r, style_of(r, 0.4)) for _ in range(3)] + [PROBE, "{"]
    fresh = ctx.new_parser(bool(i % 2), cache=bool(i // 2 % 2))
    for t in texts:
        a, b = ctx.tree(t, fresh), ctx.tree(t)
        ctx.ran(t)
        if m := same_outcome(a, b):
            ctx.fail(f"fresh and used parser dump differently: {m}", text=t)


def c22_files(ctx, i):
    """dumps of files that change, vanish or are no text, next to parsing them"""
    r = ctx.rng
    p = ctx.new_parser(bool(i % 2)) if i % 4 == 0 else ctx.parser(bool(i % 2))
    a, b = write(ctx, b"", f"dump-a{i % 2}.bicep"), write(ctx, b"", "dump-b.bicep")
    now = {}
    for n in range(10):
        f = r.choice([a, b])
        if f not in now or r.random() < 0.6:
            k = r.random()
            if k < 0.12:
                data = r.choice(BADBYTES)
            elif k < 0.24:
                data = r.choice(JUNK + ["var a = '''x"]).encode()
            else:
                data = joined(G(r, None, 1).doc(r.choice([1, 2])).tokens(), r).replace("\r", "").encode()
            st = os.stat(f) if f.exists() else None
            f.write_bytes((b"\xef\xbb\xbf" if r.random() < 0.2 else b"") + data)
            if st and r.random() < 0.5:
                os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
            now[f] = data
        elif r.random() < 0.15 and f.exists():
            f.unlink()
            now[f] = None
        kw = {"file_path": f}
        if r.random() < 0.08:
            kw = r.choice([{}, {"text": None}, {"text": "var a = 1", "file_path": f}, {"text": "", "file_path": f}])
        order = r.random() < 0.5
        if order:
            o = ctx.call(p.parse, **kw)
        d = ctx.call(p.create_tree, **kw)
        if not order:
            o = ctx.call(p.parse, **kw)
        ctx.ran((str(now[f]), order, sorted(kw)))
        ctx.counts["files dumped" if d.ok else "files rejected"] += 1
        if o.ok and not d.ok or d.ok and not o.ok and is_syntax(o.error) or not o.ok and not d.ok and (type(o.error) is not type(d.error) or str(o.error) != str(d.error)):
            ctx.fail(f"{kw}: parse gives {o!r}, the dump {d!r}", text=repr(now[f]))
        if d.ok:
            t = ctx.tree(now[f].decode("utf-8"), p)
            if not t.ok or t.value != d.value:
                ctx.fail("the dump of a file is not the dump of its text", text=repr(now[f]), actual=d.value[:1500], expected=repr(t)[:1500])
    for f in now:
        with contextlib.suppress(OSError):
            f.unlink()


def variants(i, r):
    """pairs of documents that differ in one name, literal, operator or mark that matters"""
    a, b, c = I("a"), I("b"), I("c")
    ops = list(T.BINOPS)
    accs = [".", "::"]
    k = i % 12
    if k == 0:
        x, y = r.sample(ops, 2)
        return ("bin", x, a, b), ("bin", y, a, b)
    if k == 1:
        x, y = r.choice(ops), r.choice(ops)
        return ("bin", x, a, ("bin", y, b, c)), ("bin", x, ("paren", ("bin", y, a, b)), c) if x == y else ("bin", y, ("paren", ("bin", x, a, b)), c)
    if k == 2:
        return ("un", "!", a), ("un", "-", a)
    if k == 3:
        x = r.sample([("bool", True), ("bool", False), ("null",), ("int", 0), ("int", 1), S(""), S("a"), a, ("arr", [], []), ("obj", [], []), ("ml", "a"), ("call", "a", None, [])], 2)
        return x[0], x[1]
    if k == 4:
        return ("bin", ".", a, b), ("bin", "::", a, b)
    if k == 5:
        return ("arr", [a, b], [","]), ("arr", [b, a], [","])
    if k == 6:
        return O(("k", a)), O(("l", a))
    if k == 7:
        n = r.choice(T.ALL_FUNCS + ["f", "g"])
        return ("call", n, None, [a, b]), ("call", n, None, [b, a])
    if k == 8:
        return ("cond", a, b, c), ("cond", a, c, b)
    if k == 9:
        return ("idx", a, S("x"), False), ("bin", ".", a, I("x"))
    if k == 10:
        return ("arr", [a], []), ("arr", [("arr", [a], [])], [])
    return ("lam", ["x"], False, I("x")), ("lam", ["x"], False, I("y"))


DECLPAIRS = [("resource r 'A/b@1' = {}", "resource r 'A/b@1' existing = {}"), ("resource r 'A/b@1' = {}", "resource r 'A/b@2' = {}"), ("resource r 'A/b@1' = {}", "module r 'A/b@1' = {}"), ("param a string", "param a int"), ("param a string", "param a string[]"), ("param a string[]", "param a string[][]"),
             ("param a string", "output a string = x"), ("var a = 1", "type a = 1"), ("targetScope = 'tenant'", "targetScope = 'subscription'"), ("@secure()\nparam a int", "param a int"), ("@secure()\nparam a int", "@sealed()\nparam a int"), ("@a()\n@b()\nparam a int", "@b()\n@a()\nparam a int"),
             ("param a (int | string)", "param a (string | int)"), ("func f(a int) int => a", "func f(a string) int => a"), ("func f(a int) int => a", "func f(a int) string => a"), ("import {a} from 'x'", "import {a as b} from 'x'"), ("import 'a'", "extension a"), ("extension a", "extension a as b"), ("extension a with {k: 1}", "extension a"),
             ("metadata a = 'x'", "metadata b = 'x'"), ("metadata a = 'x'", "var a = 'x'"), ("type t = 'a' | 'b'", "type t = 'b' | 'a'"), ("resource r 'A/b@1' = if (c) {}", "resource r 'A/b@1' = if (d) {}"), ("resource r 'A/b@1' = [for i in c: {}]", "resource r 'A/b@1' = [for (i, n) in c: {}]"),
             ("var a = [for i in c: i]", "var a = [for j in c: i]"), ("resource r 'A/b@1' = {\n resource c 's' = {}\n}", "resource r 'A/b@1' = {}"), ("resource r 'A/b@1' = if (c) {}", "resource r 'A/b@1' = {}"), ("param a int = 1", "param a int"), ("var a int = 1", "var a = 1"), ("import * as a from 'x'", "import * as b from 'x'")]


def c22_pairs(ctx, i):
    """what parsing reports differently is dumped differently"""
    r = ctx.rng
    if i < len(DECLPAIRS):
        t1, t2 = DECLPAIRS[i]
    else:
        v1, v2 = variants(i, r)
        pos = r.choice(POS)
        t1, t2 = (joined(Doc([place(pos, "x", v)]).tokens(), r) for v in (v1, v2))
        ctx.seen("positions", pos)
    p1, p2, d1, d2 = ctx.parse(t1), ctx.parse(t2), ctx.tree(t1), ctx.tree(t2)
    ctx.ran(t1 + t2)
    if not (p1.ok and p2.ok and d1.ok and d2.ok):
        ctx.counts["pairs with a rejected document"] += 1
        return
    if diff_actual(p1.value, p2.value):
        ctx.counts["pairs with different results"] += 1
        if d1.value == d2.value:
            ctx.fail("different documents with different results have the same dump", text=t1, other=t2, actual=d1.value[:2000])
    else:
        ctx.counts["pairs with equal results"] += 1


CHECKS = {
    "C17": Check([
        Stream("documents", c17_docs, 2500, 40000, rule="text, file, file with byte order mark; both entry points"), Stream("paths", c17_paths, 56, 560), Stream("selection", c17_selection, 2, 4), Stream("bytes", c17_bytes, len(BADBYTES) * 2, len(BADBYTES) * 6),
        Stream("long files", c17_big, 48, 600), Stream("missing", c17_missing, 2, 8), Stream("quotes", c17_quotes, 120, 2000), Stream("empty", c17_empty, 10, 10), Stream("locale", c17_locale, 10, 60), Stream("rewritten", c17_change, 60, 1000),
    ], "distinct (document, way of passing it) pairs, selections and file states", "runtime monitoring of parse() and create_tree(): differential oracle text/file, audit-hook monitor of file opens, processes in other locales, unprivileged processes",
        "every call with a file compared with the same call with its text; error kinds compared with the stated ones", assumptions=["CRLF inside multi-line strings of files may arrive as written or, as reading text in Python does it, as LF", *ASSUME[1:]]),
    "C18": Check([
        Stream("brackets", c18_brackets, 1500, 20000), Stream("cut", c18_cut, 1500, 20000), Stream("stray characters", c18_chars, len(BADCHARS) * 12, len(BADCHARS) * 120), Stream("broken", c18_broken, 900, 12000, rule="single-quoted strings with a line break, and pairs of strings with one quote each"), Stream("misplaced", c18_misplaced, 400, 6000, rule="a nested resource in 40 positions and in module bodies; accepted in bodies of resources"), Stream("quotes", c18_quotes, 700, 10000),
        Stream("places", c18_places, 1500, 20000, rule="an illegal character behind a well-formed beginning: line and column of the error"), Stream("missing tokens", c18_missing, len(MISSING), exhaustive=True, rule="every required token of every kind of declaration left out, in front of every kind of declaration"),
        Stream("malformed values", c18_values, len(BADVALUES), rule="every malformed value of the list in every position", exhaustive=True), Stream("junk lines", c18_junk, len(JUNK), len(JUNK) * 6),
        Stream("illegal references", c18_semantic, 140, 800), Stream("damage", c18_garbage, 1500, 40000), Stream("history", c18_history, 60, 1000),
        Stream("mutants", c18_mutants, 6000, 150000), Stream("insertions", c18_inserted, len(HOSTS) * len(MUTANTS), exhaustive=True, rule="every token of the list at every marked place of every form of value"),
    ], "distinct malformed documents", "runtime monitoring of parse() and create_tree(): documents made malformed by construction must raise, the same parser must then handle a good one",
        "malformed by construction (unpaired brackets, unclosed strings, tokens that cannot stand there, required tokens left out), and mutated documents of which an independent recogniser, more tolerant than the language, finds no reading", assumptions=["that a damaged document has no reading left follows from how it was damaged or from the recogniser vt/recog.py, which reads more than the language (line breaks as blanks, keywords as names, any value behind an accessor, items without separators)", *ASSUME[1:]]),
    "C22": Check([
        Stream("contents", c22_contents, 4000, 60000), Stream("repeated", c22_repeated, 800, 12000, rule="equal declarations, decorators, items, members, arguments and operands"), Stream("agreement", c22_agree, 2500, 40000), Stream("fresh", c22_fresh, 24, 200), Stream("files", c22_files, 200, 4000), Stream("pairs", c22_pairs, 3000, 40000), Stream("long", c22_long, 160, 2400),
    ], "distinct documents dumped", "runtime monitoring of create_tree() next to parse(): differential and metamorphic oracles",
        "acceptance and errors compared with parse, contents with the source tokens, dumps of differing documents with each other; no grammar rule name is assumed", assumptions=ASSUME[1:]),
}
