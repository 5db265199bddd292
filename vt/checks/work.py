"""Bounded work (C21)."""
import os
import pickle
import resource
import signal
import struct
import sys
import time

from ..common import *  # noqa: F403
from ..core import Check, Stream
from .inputs import JUNK, joined
from .values import ASSUME

# what one call may cost: far more than any document observed needs, far less than an explosion
BASE_S, PER_CHAR_S = 4.0, 0.0005


def bound(text):
    return BASE_S + PER_CHAR_S * len(text)


def in_child(ctx, jobs, limit):
    """runs jobs [(text, what)] in one child with a CPU limit; -> per job (seconds, outcome) as far as it came, status.

    The times go through a pipe as they come, so a child that dies leaves those before it."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            lim = int(limit) + 2
            resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            for text, what in jobs:
                t0 = time.process_time()
                p = ctx.parser(what.endswith("+"))
                try:
                    (p.create_tree if what.startswith("tree") else p.parse)(text=text)
                    o = b"ok"
                except RecursionError:
                    o = b"RecursionError"
                except Exception as e:
                    o = type(e).__name__.encode()[:24]
                os.write(w, struct.pack("d24s", time.process_time() - t0, o))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while b := os.read(r, 65536):
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    out = [(s, o.rstrip(b"\0").decode()) for s, o in struct.iter_unpack("d24s", data)]
    return out, status


def measured(ctx, jobs, what=""):
    """judges jobs [(text, kind)] one after another in children; -> times"""
    times, k = [], 0
    while k < len(jobs):
        limit = sum(bound(t) for t, _ in jobs[k:k + 20])
        # a child gets the sum of the limits; each job is judged by its own
        out, status = in_child(ctx, jobs[k:k + 20], max(bound(t) for t, _ in jobs[k:k + 20]) + 5)
        for (text, kind), (s, o) in zip(jobs[k:k + 20], out):
            ctx.ran((text[:3000], len(text), kind), sample=f"{what} {len(text)} characters: {text[:200]}")
            ctx.counts["calls measured"] += 1
            ctx.counts["outcome " + o] += 1
            ctx.counts["CPU time in ms"] += int(s * 1000)
            times.append((len(text), s, o))
            ctx.seen("share of the permitted time used (in percent)", int(100 * s / bound(text)))
            if s > bound(text):
                ctx.fail(f"{kind} of {len(text)} characters used {s:.1f} s of CPU time, more than {bound(text):.0f} s", text=text[:100000])
                return times
        k += len(out)
        if status:
            n = min(k, len(jobs) - 1)
            text, kind = jobs[n]
            used = sum(s for s, _ in out)
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL) and used > 0.5 * BASE_S and limit:
                # others before it used up the limit: judge it on its own
                out, status = in_child(ctx, jobs[n:n + 1], bound(text))
                if not status:
                    times.append((len(text), *out[0]))
                    ctx.ran((text[:3000], len(text), kind))
                    k += 1
                    continue
            how = f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"status {os.WEXITSTATUS(status)}"
            ctx.fail(f"{kind} of {len(text)} characters ended the process with {how}" + (f" after more than {bound(text):.0f} s of CPU time" if "24" in how or "9" in how else ""), text=text[:100000])
            return times
    return times


# --- families: n -> text, growing linearly with n ---------------------------------
def fam(pre, unit, post=""):
    return lambda n: pre + unit * n + post


FAMILIES = {
    "interpolations": fam("var a = '", "${a}", "'"), "interpolations unclosed": fam("var a = '", "${a}"), "characters": fam("var a = '", "a", "'"), "characters unclosed": fam("var a = '", "a"), "escapes": fam("var a = '", "\\\\", "'"),
    "escapes unclosed": fam("var a = '", "\\\\"), "escaped quotes": fam("var a = '", "\\'", "'"), "escaped quotes unclosed": fam("var a = '", "\\'"), "dollars": fam("var a = '", "$", "'"), "dollars unclosed": fam("var a = '", "$"),
    "interpolation starts": fam("var a = '", "${"), "interpolation starts closed by a quote": fam("var a = '", "${", "'"), "nested strings": lambda n: "var a = " + "'${" * n + "a" + "}'" * n, "nested strings unclosed": lambda n: "var a = " + "'${" * n + "a" + "}'" * (n - 1),
    "nested strings half closed": lambda n: "var a = " + "'${" * n + "a" + "}'" * (n // 2), "braces in an interpolation": lambda n: "var a = '${" + "{" * n + "}" * n + "}'", "braces in an interpolation unclosed": lambda n: "var a = '${" + "{" * n + "'", "brace pairs in an interpolation": fam("var a = '${", "{}", "}'"),
    "brace pairs unclosed": fam("var a = '${", "{}", "'"), "braces": fam("var a = '", "{", "'"), "closing braces": fam("var a = '", "}", "'"), "mixed string": fam("var a = '", "a${b}$\\'{}", "'"), "mixed string unclosed": fam("var a = '", "a${b}$\\'{}"), "strings in an interpolation": fam("var a = '${", "'x'", "}'"),
    "strings in an interpolation unclosed": fam("var a = '${", "'x'"), "quotes": fam("var a = ", "'"), "quotes and spaces": fam("var a = ", "' "), "quote pairs": fam("var a = ['a'", ",''", "]"), "strings with interpolations": fam("var a = [", "'${b}',", "'z']"), "strings, last unclosed": fam("var a = [", "'${b}',", "'z"),
    "multi-line text": fam("var a = '''", "a\n", "'''"), "multi-line text unclosed": fam("var a = '''", "a\n"), "multi-line unclosed after a comment": fam("// '''\nvar a = '''", "a\n"), "multi-line quotes": fam("var a = '''", "' ", "'''"), "multi-line quote pairs": fam("var a = '''", "'' ", "'''"), "multi-line strings": fam("var a = [", "'''a''',", "1]"),
    "multi-line strings, last unclosed": fam("var a = [", "'''a''',", "'''"), "three quotes": fam("var a = ", "'''"), "line comments": fam("var a = 1", " // x\n"), "line comment": fam("var a = 1 //", "/ "), "line comment of stars": fam("var a = 1 // ", "/* */"), "block comments": fam("var a = 1", " /* x */"), "block comment": fam("var a = 1 /*", "* ", "*/"),
    "block comment of stars": fam("var a = 1 /*", "*", "/"), "block comment unclosed": fam("var a = 1 /*", "*"), "block comment starts": fam("var a = 1 ", "/*"), "block comments on lines": fam("var a = 1", "\n/* x */ "), "block comment with lines": fam("var a = 1 /*", "x\n", "*/"), "block comment with lines unclosed": fam("var a = 1 /*", "x\n"),
    "hash comments": fam("var a = 1", "\n#x"), "hash comment": fam("var a = 1 #", "#"), "blank lines": fam("var a = 1", "\n"), "blank lines CRLF": fam("var a = 1", "\r\n"), "carriage returns": fam("var a = 1", "\r"), "lines with blanks": fam("var a = 1", "\n "), "mixed comments": fam("var a = 1", "\n// x\n/* y */ # z\n\t"), "comments in front": fam("", "// x\n", "var a = 1"),
    "blanks": fam("var a =", " ", "1"), "tabs": fam("var a =", "\t", "1"), "blanks at the end": fam("var a = 1", " "), "blanks before a bracket": fam("var a = f", " ", "(1)"), "blanks before no bracket": fam("var a = f", " ", "1"), "blanks before a list bracket": fam("var a = x.listKeys", " ", "()"), "name": fam("var a = ", "a"), "name with underscores": fam("var a = ", "a_"), "name with list": fam("var a = x.", "list"), "name with getSecret": fam("var a = x.", "getSecret"), "digits": fam("var a = ", "1"),
    "digits and letters": fam("var a = ", "1a"), "keywords": fam("", "var"), "keywords and blanks": fam("", "var "), "sys": fam("var a = ", "sys."), "az": fam("var a = ", "az."), "sys functions": fam("var a = [", "sys.f(),", "1]"), "dots": fam("var a = a", "."), "colons": fam("var a = a", ":"), "ats": fam("", "@"), "decorators": fam("", "@a() ", "param p string"), "decorators on lines": fam("", "@a()\n", "param p string"), "decorators without declaration": fam("", "@a()\n"),
    "decorator with blank lines": fam("@a()", "\n", "param p string"), "decorator with comments": fam("@a()", "// x\n", "param p string"), "decorator with comments in it": fam("@a(", "// x\n", "1)\nparam p string"), "decorator name": fam("@", "a", "()\nparam p string"), "array suffixes": fam("param p string", "[]"), "array suffixes unclosed": fam("param p string", "["), "union": lambda n: "param p (a" + " | a" * n + ")", "union unclosed": lambda n: "param p (a" + " | a" * n,
    "nested unions": lambda n: "param p " + "(a | " * n + "b" + ")" * n, "type members": lambda n: "type t = 'a'" + " | 'a'" * n, "question marks": fam("var a = a", "?"), "exclamation marks": fam("var a = ", "!"), "exclamation marks behind": fam("var a = a", "!"), "minuses": fam("var a = ", "-"), "open parentheses": fam("var a = ", "("), "open brackets": fam("var a = ", "["), "open braces": fam("var a = ", "{"), "closing parentheses": fam("var a = 1", ")"),
    "closing brackets": fam("var a = 1", "]"), "mixed open": fam("var a = ", "[(f({a:"), "open functions": fam("var a = ", "f("), "open loops": fam("var a = ", "[for i in x: "), "open objects": fam("var a = ", "{ a: "), "open conditions": fam("var a = ", "a ? "), "open lambdas": fam("var a = ", "f(x => "), "open decorators": fam("", "@a("), "open resources": fam("", "resource r 'a@1' = { "), "resource starts": fam("", "resource r "), "pipes": fam("var a = a", "|"), "ampersands": fam("var a = a", "&"), "arrows": fam("var a = a", "=>"), "commas": fam("var a = [1", ","), "equals signs": fam("var a ", "="),
    "module path": fam("module m 'br:", "a/", "b:c' = {}"), "module path of dots": fam("module m './", "../", "x' = {}"), "module path without tag": fam("module m 'br:", "a/", "' = {}"), "module registry": fam("module m 'br:", "a.", "/b:c' = {}"), "module tag": fam("module m 'br:a/b:", "c", "' = {}"), "module path colons": fam("module m 'br:a/b", ":c", "' = {}"), "template spec": fam("module m 'ts:0-1/r/", "n", ":v' = {}"), "template spec slashes": fam("module m 'ts:", "0/", ":v' = {}"), "template spec hex": fam("module m 'ts:", "0-", "/a/b:v' = {}"), "template spec group": fam("module m 'ts:0/", "(.)", "/b:v' = {}"), "template spec group unclosed": fam("module m 'ts:0/", "(._-", "' = {}"),
    "alias path": fam("module m 'br/a:", "b/", ":c' = {}"), "alias": fam("module m 'br/", "a", ":b:c' = {}"), "spec alias": fam("module m 'ts/", "a", ":b:c' = {}"), "spec alias path": fam("module m 'ts/a:", "b.", ":c' = {}"), "spec alias colons": fam("module m 'ts/a", ":b", "' = {}"), "plain module reference": fam("module m '", "a", "' = {}"), "module slashes": fam("module m '", "/", "' = {}"), "resource type": fam("resource r 'A/", "b/", "c@1' = {}"), "resource versions": fam("resource r 'A/b", "@1", "' = {}"), "resource type without version": fam("resource r '", "A/", "' = {}"),
    "accessors": fam("var a = a", ".b"), "nullable accessors": fam("var a = a", ".?b"), "indices": fam("var a = a", "[0]"), "indices of strings": fam("var a = a", "['x']"), "indices unclosed": fam("var a = a", "[0"), "mixed accessors": fam("var a = a", ".b[0]::c"), "mixed accessors and calls": fam("var a = a", ".b[0].listKeys()"), "indexed": fam("var a = a", "[b.c]"), "list calls": fam("var a = a", ".listKeys()"), "list calls unclosed": fam("var a = a", ".listKeys("), "list calls with arguments": fam("var a = a", ".listKeys('a-b', c.d)"), "getSecret calls": fam("var a = a", ".getSecret('x')"), "operators": fam("var a = a", " + a"), "comparisons": fam("var a = a", " == a"), "coalesce": fam("var a = a", " ?? a"), "conditions": fam("var a = ", "b ? c : ", "d"), "negations": fam("var a = ", "!", "a"), "minus signs": fam("var a = ", "-", "1"), "unicode": fam("var a = '", "ü😀", "'"), "unicode outside": fam("var a = ", "ü"), "null bytes": fam("var a = '", "\0", "'"), "form feeds": fam("var a = 1", "\f"), "imports": fam("import {a", ",a", "} from 'x'"), "stars": fam("import ", "*", " as a from 'x'"), "function arguments": fam("func f(a string", ", b int", ") string => 'x'"), "scope": fam("targetScope = '", "a", "'"), "surrogates": fam("var a = '", "\ud800", "'"),
}


def sizes(ctx):
    return [1, 2, 3, 5, 8, 12, 16, 20, 24, 28, 32, 40, 64, 100, 200, 500, 1500] + ([4000, 12000] if ctx.tier == "thorough" else [4000])


def c21_families(ctx, i):
    """one repetitive text at growing sizes"""
    name = list(FAMILIES)[i]
    f = FAMILIES[name]
    ctx.seen("families", name)
    kinds = ["parse", "tree", "parse+"]
    jobs = [(f(n), kinds[(i + k) % 3] if k % 4 == 3 else "parse") for k, n in enumerate(sizes(ctx)) if n >= 1]
    growth(ctx, measured(ctx, jobs, name), name, jobs)


def growth(ctx, times, name, jobs):
    """between small sizes the time may not explode either"""
    for (n, s, o), (m, t, p) in zip(times, times[1:]):
        ctx.counts["pairs of sizes compared"] += 1
        if m > n and t > 2.0 and t > 0.5 * (m / n) ** 4 and t > 8 * (m / n) ** 4 * s:
            ctx.fail(f"{name}: {n} characters take {s:.3f} s, {m} characters {t:.1f} s")


PIECES = ["'", "''", "'''", "${", "}", "{", "$", "\\", "\\'", "a", "b_", "1", " ", "\n", "\r\n", "\t", "//", "/*", "*/", "*", "#", "(", ")", "[", "]", "[]", ".", ".?", "::", ":", ",", "?", "??", "!", "=", "==", "=>", "|", "||", "&&", "+", "-", "%", "@", "@a()", "@sys.a(", "list", "listKeys(", "getSecret(", "sys.", "az.", "for", "for i in x:", "if (", "resource", "resource r", "var", "var a = ", "param p", "type", "import", "as", "from", "with", "existing", "null", "true", "'a'", "'${a}'", "f(", "f()", "a.b", "a[0]", "in", "func", "output", "metadata", "module", "extension", "'br:a/b:c'", "'ts:", "A/b@1", "ü"]
STARTS = ["", "var a = ", "var a = '", "var a = '${", "var a = '''", "var a = [", "var a = {", "var a = { b: ", "var a = f(", "var a = a.", "param p ", "param p (", "@a(", "@a()", "resource r '", "resource r 'A/b@1' = ", "resource r 'A/b@1' = {\n", "module m '", "module m 'br:", "module m 'ts:", "import ", "import {", "import '", "type t = ", "func f(", "output o string = ", "targetScope = '", "var a = 1 ", "var a = 1 //", "var a = 1 /*", "var a = [for i in x: ", "extension e ", "metadata m = "]
ENDS = ["", "'", "}'", "''", "'''", "\n", "}", "]", ")", "!", "\0", "' = {}", "*/", "a", "\\", "$", "1\n", "\nvar z = 1"]


def c21_pump(ctx, i):
    """random repetitions: start + unit * n + end"""
    r = ctx.rng
    jobs = []
    for _ in range(6):
        unit = "".join(r.choice(PIECES) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))
        start, end = r.choice(STARTS) + (r.choice(PIECES) if r.random() < 0.4 else ""), r.choice(ENDS)
        for n in (12, 25, 40, 400) if r.random() < 0.8 else (30, 3000):
            jobs.append((start + unit * n + end, r.choice(["parse", "parse", "tree"])))
        ctx.counts["units pumped"] += 1
    measured(ctx, jobs, "pump")


def c21_pump_real(ctx, i):
    """a piece cut out of a real document, repeated in its place"""
    r = ctx.rng
    jobs = []
    for _ in range(6):
        t = joined(G(r, None, 2).doc().tokens(), r) or "var a = 1"
        a = r.randrange(len(t))
        b = min(len(t), a + r.choice([1, 2, 3, 5, 8, 15, 30]))
        for n in (20, 40) + ((1000,) if r.random() < 0.3 else ()):
            jobs.append((t[:a] + t[a:b] * n + (t[b:] if r.random() < 0.6 else r.choice(ENDS)), "parse"))
        ctx.counts["units pumped"] += 1
    measured(ctx, jobs, "pump in a document")


# --- long documents ------------------------------------------------------------
def flat(kind, n):
    """(document text, function that counts and looks at the result)"""
    r = range(n)

    def sec(s, probe):
        def f(v):
            d = v.get(s, {})
            if len(d) != n:
                return f"{len(d)} {s} instead of {n}"
            return None if all(probe(d, k) for k in (0, n // 2, n - 1)) else f"wrong content of {s}"
        return f

    def val(probe):
        return lambda v: None if probe(v["variables"]["a"]["value"]) else "wrong value"
    texts = {
        "variables": ("\n".join(f"var v{k} = {k}" for k in r), sec("variables", lambda d, k: d[f"v{k}"]["value"] == k)),
        "parameters": ("\n".join(f"@description('d{k}')\nparam p{k} string = 'x{k}'" for k in r), sec("parameters", lambda d, k: d[f"p{k}"]["default"] == f"x{k}" and d[f"p{k}"]["decorators"][0]["argument"] == f"d{k}")),
        "outputs": ("\n".join(f"output o{k} int = {k}" for k in r), sec("outputs", lambda d, k: d[f"o{k}"]["value"] == k)),
        "resources": ("\n\n".join(f"resource r{k} 'A/b@{k}' = {{\n  name: 'n{k}'\n  tags: {{\n    a: '${{b}}'\n  }}\n}}" for k in r), sec("resources", lambda d, k: d[f"r{k}"]["api_version"] == str(k) and d[f"r{k}"]["config"]["name"] == f"n{k}")),
        "modules": ("\n".join(f"module m{k} './m{k}.bicep' = {{\n  name: 'n{k}'\n}}" for k in r), sec("modules", lambda d, k: d[f"m{k}"]["detail"]["path"] == f"./m{k}.bicep")),
        "functions": ("\n".join(f"func f{k}(a string) string => '{k}'" for k in r), sec("functions", lambda d, k: d[f"f{k}"]["expression"] == str(k))),
        "types": ("\n".join(f"type t{k} = 'a' | 'b{k}'" for k in r), sec("types", lambda d, k: True)),
        "imports": ("\n".join(f"import * as i{k} from '{k}'" for k in range(1)) + "\n" + "\n".join(f"import {{a{k}}} from '{k}'" for k in range(n - 1)), lambda v: None if len(v.get("imports", {})) == n else f"{len(v.get('imports', {}))} imports instead of {n}"),
        "array on lines": ("var a = [\n" + "\n".join(f"  'i{k}'" for k in r) + "\n]", val(lambda x: x == [f"i{k}" for k in r])),
        "array with commas": ("var a = [" + ",".join(map(str, r)) + "]", val(lambda x: x == list(r))),
        "array of arrays": ("var a = [\n" + "\n".join(f"  [{k}, x]" for k in r) + "\n]", val(lambda x: len(x) == n and x[-1][0] == n - 1)),
        "object on lines": ("var a = {\n" + "\n".join(f"  k{k}: {k}" for k in r) + "\n}", val(lambda x: x == {f"k{k}": k for k in r})),
        "object with commas": ("var a = {" + ", ".join(f"k{k}: 'v{k}'" for k in r) + "}", val(lambda x: x == {f"k{k}": f"v{k}" for k in r})),
        "array of objects": ("var a = [\n" + "\n".join(f"  {{\n    a: {k}\n  }}" for k in r) + "\n]", val(lambda x: x == [{"a": k} for k in r])),
        "arguments": ("var a = f(" + ", ".join(map(str, r)) + ")", val(lambda x: len(x["function"]["parameters"]) == n and x["function"]["parameters"][f"arg_{n}"] == n - 1)),
        "known arguments": ("var a = union(" + ", ".join(f"x{k}" for k in r) + ")", val(lambda x: len(x["function"]["parameters"]) == n and x["function"]["parameters"][f"arg_{n}"] == f"x{n - 1}")),
        "decorators": ("@d()\n" * n + "param a string", lambda v: None if len(v["parameters"]["a"]["decorators"]) == n else "decorators lost"),
        "allowed": ("@allowed([\n" + "\n".join(f"  'x{k}'" for k in r) + "\n])\nparam a string", lambda v: None if v["parameters"]["a"]["decorators"][0]["argument"] == [f"x{k}" for k in r] else "allowed values lost"),
        "union members": ("type a = " + " | ".join(f"'m{k}'" for k in r), lambda v: None if len(str(v["types"]["a"])) > n * 4 and f"m{n - 1}" in str(v["types"]["a"]) else "members lost"),
        "comments": ("\n".join(f"// comment {k}" for k in r) + "\nvar a = 1\n" + "/* x\n */\n" * n, val(lambda x: x == 1)),
        "blank lines": ("\n" * n + "var a = 1" + "\n" * n, val(lambda x: x == 1)),
        "text": ("var a = '" + "lorem ${ipsum} " * n + "'", val(lambda x: len(x) == 15 * n)),
        "multi-line text": ("var a = '''\n" + "lorem 'ipsum'\n" * n + "'''", val(lambda x: len(x) == 14 * n)),
        "many multi-line strings": ("var a = [\n" + "'''\nx ''y\n'''\n" * n + "]", val(lambda x: x == ["x ''y\n"] * n)),
        "interpolated strings": ("var a = [\n" + "'${a}-${f('x', '${b}')}'\n" * n + "]", val(lambda x: x == ["${a}-${f('x', '${b}')}"] * n)),
        "long name": (f"var {'a' * n} = {'b' * n}", lambda v: None if v["variables"]["a" * n]["value"] == "b" * n else "name lost"),
        "name": ("var a = " + "x" * n, val(lambda x: x == "x" * n)),
        "signature": ("func a(" + ", ".join(f"p{k} string" for k in r) + ") string => 'x'", lambda v: None if list(v["functions"]["a"]["args"]) == [f"p{k}" for k in r] else "arguments lost"),
        "import list": ("import {" + ", ".join(f"p{k} as q{k}" for k in r) + "} from 'x'", lambda v: None if len(v["imports"]) == n else "imports lost"),
        "loops": ("var a = [\n" + "[for i in x: {\n k: i\n}]\n" * 0 + "1\n]\n" + "\n".join(f"var l{k} = [for (i, j) in x{k}: if (i > {k}) {{\n  k: i\n}}]" for k in r), lambda v: None if len(v["variables"]) == n + 1 and v["variables"][f"l{n - 1}"]["value"]["loop_type"]["detail"]["array_name"] == f"x{n - 1}" else "loops lost"),
        "nested resources": ("\n".join(f"resource r{k} 'A/b@1' = {{\n  resource c{k} 's' = {{\n    n: {k}\n  }}\n}}" for k in range(n // 2)), lambda v: None if len(v["resources"]) == n // 2 * 2 and v["resources"][f"r{n // 2 - 1}__c{n // 2 - 1}"]["config"]["n"] == n // 2 - 1 else "nested resources lost"),
        "extensions": ("\n".join(f"extension e{k} with {{ a: {k} }}" for k in r), sec("extensions", lambda d, k: d[f"e{k}"]["config"] == {"a": k})),
        "metadata": ("\n".join(f"metadata m{k} = 'x{k}'" for k in r), sec("metadata", lambda d, k: d[f"m{k}"]["value"] == f"x{k}")),
        "calls": ("var a = [\n" + "\n".join(f"  concat('x{k}', y)" for k in r) + "\n]", val(lambda x: len(x) == n and x[-1]["function"]["parameters"]["arg_1"] == f"x{n - 1}")),
        "operators": ("var a = [\n" + "\n".join(f"  {k} + a.b" for k in r) + "\n]", val(lambda x: len(x) == n and x[-1]["operator"]["operands"]["operand_1"] == n - 1)),
        "conditions": ("\n".join(f"resource r{k} 'A/b@1' = if (a == {k}) {{\n  name: 'x'\n}}" for k in r), sec("resources", lambda d, k: d[f"r{k}"]["config"]["condition"]["operator"]["operands"]["operand_2"] == k)),
    }
    return texts[kind]


FLAT = ["variables", "parameters", "outputs", "resources", "modules", "functions", "types", "imports", "array on lines", "array with commas", "array of arrays", "object on lines", "object with commas", "array of objects", "arguments", "known arguments", "decorators", "allowed", "union members", "comments", "blank lines", "text", "multi-line text", "many multi-line strings", "interpolated strings", "long name", "name", "signature", "import list", "loops", "nested resources", "extensions", "metadata", "calls", "operators", "conditions"]


def c21_flat(ctx, i):
    """long flat documents are parsed, completely"""
    kind = FLAT[i % len(FLAT)]
    n = ([2000, 5000] if ctx.tier == "quick" else [2000, 5000, 20000])[i // len(FLAT)]
    text, look = flat(kind, n)
    ctx.seen("long documents", f"{kind} {n}")
    t0 = time.process_time()
    o = ctx.parse(text, bool(i % 2))
    s = time.process_time() - t0
    ctx.ran((kind, n), sample=f"{n} {kind}: {len(text)} characters in {s:.2f} s")
    ctx.counts["CPU time in ms"] += int(s * 1000)
    if not o.ok:
        return ctx.fail(f"a long flat document ({n} {kind}) is not parsed: {o!r}")
    c = look(o.value)
    if c:
        ctx.fail(f"a long flat document ({n} {kind}) is reported incompletely: {c}")
    if s > bound(text):
        ctx.fail(f"a long flat document ({n} {kind}, {len(text)} characters) took {s:.0f} s")
    if n == 2000:
        t = ctx.tree(text)
        ctx.ran((kind, n, "tree"))
        if not t.ok:
            ctx.fail(f"a long flat document ({n} {kind}) is not dumped: {t!r}")
    return None


def c21_linear(ctx, i):
    """time of flat documents grows about in proportion to their length: 16 times the items, at most 3 times the time per character, or not growing further"""
    kind = FLAT[i % len(FLAT)]
    if kind == "text":
        kind = "interpolated strings"       # one string of very many interpolations takes the regex engine quadratic time
    if kind in ("comments", "blank lines", "multi-line text", "long name", "name"):
        small, big = 20000, 320000          # one token: too quick to be measured at less
    else:
        small, big = 1000, 16000
    how = [["parse", "parse+"], ["tree", "broken"], ["parse+", "parse"], ["broken", "tree"]][i // len(FLAT) % 4][i % 2]
    make = lambda n: flat(kind, n)[0] + ("\n\t}\n" if how == "broken" else "\n")  # noqa: E731
    a, b = make(small), make(big)
    what = "parse" if how == "broken" else how
    ctx.seen("growth measured", f"{kind} {how}")

    def times(c=b):
        one, st1 = in_child(ctx, [(a, what)] * 4, bound(a) * 4)
        two, st2 = in_child(ctx, [(c, what)], bound(c))
        if st1 or st2 or not two:
            return None
        return min(t for t, _ in one), two[0][0], two[0][1]
    m = times()
    ctx.ran((kind, how, big), sample=f"{kind}, {how}: {len(a)} and {len(b)} characters in {m}")
    if m is None:
        return ctx.fail(f"{kind}: {big} of them ({len(b)} characters, {how}) do not come to an end within {bound(b):.0f} s of CPU time", text=b[:2000])
    f = lambda m, c=b: m[1] / max(m[0], 0.002) / (len(c) / len(a))  # noqa: E731
    ctx.seen("growth of the time per character (in tenths)", int(10 * f(m)))
    if f(m) > 3 and m[1] > 0.7:
        # suspicious: measured again, and if it stays so with four times the items, where it has to be four times as bad
        again = [x for x in (times() for _ in range(2)) if x]
        if all(f(x) > 3 for x in again):
            ctx.counts["suspicious growth followed up"] += 1
            c = make(4 * big)
            more = times(c)
            if not more or f(more, c) > 8 and f(more, c) > 2 * min(map(f, [m, *again])):
                ctx.fail(f"{kind} ({how}): {len(a)} characters take {m[0]:.3f} s, {len(b)} characters {m[1]:.1f} s, {len(c)} " + (f"{more[1]:.1f} s" if more else "do not come to an end"), text=b[:2000])
    return None


# --- literals with a form of their own ------------------------------------------
HOLES = [("module m '", h, "' = {}") for h in (
    "./{}.bicep", "{}", "br:mcr.microsoft.com/{}:1.0", "br:mcr.microsoft.com/a/b:{}", "br:{}.azurecr.io/a/b:1", "br:acr.azurecr.io/{}:1", "br:acr.azurecr.io/a:{}", "br/{}:a/b:1",
    "br/public:{}:1", "br/public:a/b:{}", "ts:{}/rg/n:1", "ts:0a-1/{}/n:1", "ts:0a-1/rg/{}:1", "ts:0a-1/rg/n:{}", "ts/{}:n:1", "ts/a:{}:1", "ts/a:n:{}", "br:{}", "br/{}", "ts:{}", "ts/{}", "br/a:{}", "ts/a:{}", "ts:0/{}")] + [
    ("resource r '", "{}@2020-01-01", "' = {}"), ("resource r '", "A/{}@1", "' = {}"), ("resource r '", "A/b@{}", "' = {}"), ("resource r 'A/b@1' = { resource c '", "{}", "' = {} }"), ("resource r 'A/b@1' = { resource c '", "a@{}", "' = {} }"),
    ("targetScope = '", "{}", "'"), ("import '", "{}", "'"), ("import '", "ns@{}", "'"), ("import {a} from '", "{}", "'"), ("metadata m = '", "{}", "'"), ("var a = '", "{}", "'"), ("var a = '", "${{{}}}", "'"), ("var a = '''", "{}", "'''"), ("var a = { '", "{}", "': 1 }"),
    ("var ", "{}", " = 1"), ("var a = ", "{}", ""), ("var a = { ", "{}", ": 1 }"), ("var a = ", "{}", "(1)"), ("var a = ", "sys.{}", "(1)"), ("var a = b.", "{}", ""), ("var a = b.", "{}", "()"), ("var a = b.list", "{}", "('x')"), ("var a = b[", "{}", "]"),
    ("@", "{}", "()\nparam a string"), ("@sys.", "{}", "()\nparam a string"), ("param a ", "{}", ""), ("var a = 1 //", "{}", "\nvar b = 2"), ("var a = 1 /*", "{}", "*/"), ("var a = 1 #", "{}", "\nvar b = 2"), ("@description('", "{}", "')\nparam a string"), ("func f(", "{}", " string) string => 'x'"),
    ("// '", "{}", "\nvar a = '''x"), ("/* '", "{}", "*/\nvar a = '''x"), ("var a = '", "{}", "'\nvar b = '''x"), ("", "{}", "\nvar a = '''x")]
UNITS = ["a", "1", "aa", "a1", "A", "-", ".", "_", "/", "a.", "a-", "a_", "a/", "/a", ".a", "-a", "..", "./", "../", "()", "(a)", "(", "a(", "v1.", "1.", "0-", "0a", ":", "a:", "@", "@a", " ", "a ", "\t", "ü", "%20", "$", "\\\\", "\\'", "\\n", "'", "''",
         "*", "/*", "//", "*/", "a,", "${a}", "{}", "[]", "[a]", "list", "get"]
TAILS = ["", "!", "/", ":", ".", "-", "@", " ", "(", "\\", "$", "'", "ü", "\n", "a!", "//"]


def c21_literals(ctx, i):
    """the content of names and of strings that have a form, made of repetitions with something unfit behind"""
    pre, hole, post = HOLES[i % len(HOLES)]
    r = ctx.rng
    jobs = []
    for u in UNITS if i < len(HOLES) else ["".join(r.choice(UNITS) for _ in range(r.choice([2, 2, 3]))) for _ in range(30)]:
        for t in (TAILS if r.random() < 0.25 else r.sample(TAILS, 7)):
            for n in (28, 90):
                jobs.append((pre + hole.format(u * n + t) + post, "parse"))
        jobs.append((pre + hole.format(r.choice(UNITS) + u * 40 + r.choice(TAILS)) + post, "parse"))
        ctx.counts["units pumped"] += 1
    ctx.seen("places of literals", pre + hole + post)
    measured(ctx, jobs, "literal")


# --- deep documents ------------------------------------------------------------
def nested(pre, post, core="1"):
    return lambda n: "var a = " + pre * n + core + post * n


DEEP = {
    "arrays": nested("[", "]"), "arrays on lines": nested("[\n", "\n]"), "objects": nested("{ k: ", " }"), "objects on lines": nested("{\n  k: ", "\n}"), "calls": nested("f(", ")"), "known calls": nested("first(", ")"), "parentheses": nested("(", ")"), "mixed": nested("[{ k: f((", ")) }]"),
    "interpolations": lambda n: "var a = " + "'${" * n + "a" + "}'" * n, "conditions": nested("b ? (", ") : c"), "condition chain": nested("b ? c : ", ""), "operators right": nested("a + (", ")"), "operators left": nested("(", " + a)"), "comparison chain": nested("a == ", ""), "sum chain": nested("a + ", ""), "sum chain behind": nested("", " + a", "a"), "and chain": nested("a && ", "", "b"), "coalesce chain": nested("a ?? ", "", "b"),
    "negations": nested("!", "", "a"), "minus": nested("-(", ")"), "accessors": nested("", ".b", "a"), "indices": nested("", "[0]", "a"), "indices inside": nested("a[", "]", "0"), "nested accessors": nested("", "::b", "a"), "resource functions": nested("", ".listKeys()", "a"), "lambdas": nested("map(a, x => ", ")", "x"), "loops": lambda n: "var a = " + "[for i in x: { k: " * n + "1" + " }]" * n, "types": lambda n: "param a " + "(b | " * n + "c" + ")" * n, "array suffixes": lambda n: "param a string" + "[]" * n,
    "resources": lambda n: "".join(f"resource r{k} 'a{'@1' if k == 0 else ''}{'' if k else ''}' = {{\n  name: 'x'\n" for k in range(n)).replace("'a@1'", "'A/b@1'") + "}\n" * n, "decorator argument": lambda n: "@custom(" + "[" * n + "1" + "]" * n + ")\nparam a string", "type members": lambda n: "type a = " + "{ k: " * n + "1" + " }" * n, "index of call": nested("f(", ")[0]", "a"), "strings in braces": lambda n: "var a = '${" + "{ a: " * n + "'x'" + " }" * n + "}'",
}


def c21_deep(ctx, i):
    """a hundred levels are handled, more work or raise an error; nothing kills the process"""
    name = list(DEEP)[i % len(DEEP)]
    f = DEEP[name]
    kinds = ["parse", "tree", "parse+"]
    ctx.seen("nestings", name)
    levels = [1, 2, 10, 50, 99, 100, 101, 110]
    times = measured(ctx, [(f(n), "parse") for n in levels] + [(f(n), "parse+") for n in (100, 101)], name)
    for n, (_, _, o) in zip(levels + [100, 101], times):
        if n <= 100 and o != "ok":
            ctx.fail(f"{n} nested levels ({name}) are not parsed: {o}", text=f(n)[:5000])
            break
    times = measured(ctx, [(f(n), "tree") for n in (20, 100)], name)
    more = [150, 200, 300, 333, 400, 500, 700, 1000, 1500, 3000] + ([10000, 50000] if ctx.tier == "thorough" else [10000])
    times = measured(ctx, [(f(n), kinds[(k + i) % 3]) for k, n in enumerate(more)], name)
    for n, (_, _, o) in zip(more, times):
        ctx.counts[f"levels beyond a hundred: {'parsed' if o == 'ok' else 'error'}"] += 1


def c21_deep_mixed(ctx, i):
    """random nestings of a hundred levels"""
    r = ctx.rng
    wraps = [("[", "]"), ("[\n", "\n]"), ("{ k: ", " }"), ("{\n  'k': ", "\n}"), ("f(", ")"), ("contains(", ", 'x')"), ("f(1, ", ")"), ("(", ")"), ("a[", "]"), ("(", ")[0]"), ("(", ").b"), ("!(", ")"), ("(b ? ", " : c)"), ("(a == ", ")"), ("[for i in x: { k: ", " }]"), ("map(a, x => (", "))"), ("x.listKeys(", ")"), ("-(", ")"), ("any(", ")!")]
    jobs = []
    for _ in range(4):
        pre, post = "", ""
        for _ in range(100):
            a, b = r.choice(wraps)
            # a loop is a value of a variable or a pair only
            if a.startswith("[for") and not (pre == "" or pre.endswith("k': ") or pre.endswith("k: ")):
                a, b = "[", "]"
            pre, post = pre + a, b + post
        jobs.append(("var a = " + pre + "z" + post, "parse"))
    for (t, _), (_, _, o) in zip(jobs, measured(ctx, jobs, "mixed nesting")):
        if o != "ok":
            ctx.fail(f"a hundred nested levels are not parsed: {o}", text=t)


def c21_after(ctx, i):
    """a parser that had to give up on a document goes on as before"""
    r = ctx.rng
    p = ctx.new_parser(bool(i % 2))
    good = joined(G(r, None, 2).doc().tokens(), r)
    a = ctx.parse(good, parser=p)
    for name in r.sample(list(DEEP), 3):
        o = ctx.parse(DEEP[name](r.choice([800, 2000])), parser=p)
        ctx.seen("outcome of deep documents", o.kind())
    b = ctx.parse(good, parser=p)
    ctx.ran(good)
    if a.ok != b.ok or (a.ok and a.value != b.value):
        ctx.fail("after a document that is too deep the parser gives another result", text=good)


CHECKS = {
    "C21": Check([
        Stream("families", c21_families, len(FAMILIES), rule="repetitive texts, closed and unclosed, at growing sizes", limit=400), Stream("pump", c21_pump, 240, 9000, rule="random unit repeated 12 to 3000 times", limit=400), Stream("pump in documents", c21_pump_real, 100, 4000, limit=400),
        Stream("long", c21_flat, 2 * len(FLAT), 3 * len(FLAT), rule="2000 to 20000 declarations or items", limit=400), Stream("growth", c21_linear, 2 * len(FLAT), 4 * len(FLAT), rule="flat documents of 1000 and 16000 items: well-formed, with line numbers, dumped, broken at the end; the time per character may not grow to 5 times", limit=800),
        Stream("literals", c21_literals, 2 * len(HOLES), 40 * len(HOLES), rule=f"{len(HOLES)} places of names and strings x {len(UNITS)} repeated units x unfit ends", limit=400),
        Stream("deep", c21_deep, len(DEEP), limit=400), Stream("mixed nesting", c21_deep_mixed, 60, 1200, limit=400), Stream("after", c21_after, 24, 240, limit=400),
    ], "distinct documents whose CPU time was measured", "runtime monitoring of CPU time, signals and outcomes of calls in resource-limited children under growing repetitive, long and deep workloads",
        "a call may use 4 s and 0.5 ms per character; time may not grow faster than the fourth power between sizes; depth 100 must parse", assumptions=["CPU time of this machine; the bounds leave a factor of more than ten to what was measured", *ASSUME[1:]]),
}
