"""Histories (C13), threads (C14), grammar cache (C15)."""
import copy
import glob
import hashlib
import json
import logging
import os
import pathlib
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from ..common import *  # noqa: F403
from ..core import REPO, Check, Ctx, HarnessError, Stream
from .decls import BADREFS, small
from .inputs import JUNK, PROBE, as_nobody, child_env, joined, where, write
from .values import ASSUME, style_of


def canon(x):
    """everything observable about a value, independent of the order of keys"""
    if isinstance(x, dict):
        return ("d", tuple(sorted(((str(k), canon(v)) for k, v in x.items()), key=lambda p: p[0])))
    if isinstance(x, (list, tuple)):
        return ("l" if type(x) is list else "t", tuple(map(canon, x)))
    if isinstance(x, str):
        return ("r" if is_ref(x) else "s", str(x))
    return (type(x).__name__, repr(x))


def okey(o, texts=False):
    """an outcome in comparable form; texts: with the text of plain value errors, which name files"""
    if texts and not o.ok and type(o.error) is ValueError:
        return ("error", "ValueError", str(o.error))
    return ("ok", canon(o.value)) if o.ok else ("error", type(o.error).__name__, where(o.error))


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()


def short(k):
    return repr(k)[:600]


# documents that put something into every accumulator of a parse, some of which then fail
LATE = ["module zz 'br:bad' = {}", "resource zz 'noversion' = {}", "targetScope = 'nowhere'", "var zz = contains(a)", "param zz (", "var zz = '''", "}"]
RICH = ["import * as {n} from '{n}.bicep'", "import {{{n}, {n}b as q}} from 'x.bicep'", "import '{n}'", "resource {n} 'A/b@1' = {{\n  resource c{n} 's' = {{\n    a: 1\n    resource d{n} 't@2' = {{}}\n  }}\n}}",
        "resource {n} 'A/b@1' = [for i in x: {{\n  resource c{n} 's' = {{}}\n}}]", "@description('{n}')\n@allowed([\n  '{n}'\n])\n@metadata({{\n  k: '{n}'\n}})\n@minValue(-1)\nparam {n} string = resourceGroup().location",
        "var {n} = concat('{n}', format('{{0}}', x), resourceId('a/b', '{n}'))", "output {n} string = '{n}'", "extension {n} with {{\n  k: {n}\n}} as q", "metadata {n} = '{n}'", "type {n} = '{n}' | 'b'", "func {n}(a string, b int[]) string => '{n}'", "targetScope = 'subscription'",
        "module {n} 'br/public:a/b:1' = if (x) {{\n  name: '{n}'\n}}", "var {n} = map(x, y => y.{n}[0]::z)", "@secure()\n@custom('{n}')\nvar {n} = [for (i, j) in range(0, 3): if (i > 1) {{\n  k: j\n}}]"]


def rich(r, tag, late=None):
    n = r.randint(1, 6)
    parts = [t.format(n=f"{tag}{k}") for k, t in enumerate(r.sample(RICH, n))]
    if late is None:
        late = r.random() < 0.3
    if late:
        parts.append(r.choice(LATE))
    return "\n".join(parts) + "\n"


def spelled(r, s):
    """the same letters, otherwise capitalised or cut"""
    return r.choice([s.upper, s.lower, s.capitalize, s.title, s.swapcase, lambda: s[:-1], lambda: s + s[-1], lambda: s + " ", lambda: " " + s, lambda: ""])()


def nearly(r):
    """a document that is rejected for one detail, among the last things to be looked at"""
    k = r.randrange(7)
    if k == 0:
        return f"targetScope = '{spelled(r, r.choice(['tenant', 'subscription', 'managementGroup', 'resourceGroup']))}'\n"
    if k == 1:
        return f"module m '{r.choice(BADREFS)}' = {{}}\n"
    if k == 2:
        return f"resource r '{r.choice(['A/b', 'A/b@', '@1', '@', '', 'A/b@1@2', 'A@', 'b'])}' = {{}}\n"
    if k == 3:
        return "var x = %s(%s)\n" % (r.choice(["contains", "replace", "range", "split", "padLeft", "startsWith", "substring", "first", "length", "skip", "any", "guid", "format", "resourceId", "listKeys"]), r.choice(["", "a"]) if r.random() < 0.5 else ", ".join("a" * 9))
    if k == 4:
        return r.choice(JUNK)
    t = joined(G(r, None, r.choice([0, 1])).doc().tokens(), r)
    if k == 5:
        return t[:r.randint(0, len(t))]
    return t + r.choice(["}", "]", ")", "'", "var", "@a()", "= 1", "1", "/*", "'x"])


def pool(r, n):
    """documents, good and bad, that share names so that leaks collide and others that do not so that leaks show"""
    out = []
    for k in range(n):
        m = r.random()
        if m < 0.12:
            out.append(nearly(r))
        elif m < 0.5:
            out.append(rich(r, r.choice(["a", "b", f"u{k}_"])))
        elif m < 0.85:
            out.append(joined(G(r, {"child": 0.5}, r.choice([0, 1, 2])).doc().tokens(), r, style_of(r, 0.3)))
        elif m < 0.89:
            out.append(joined(large(r, n=r.choice([5, 9, 17, 33, 65, 101]))[1].tokens(), r))
        elif m < 0.93:
            out.append(r.choice(JUNK))
        else:
            out.append(["", "\n", PROBE][k % 3])
    return out


def scramble(x, depth=0):
    """changes a result in place as thoroughly as possible"""
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, depth + 1)
        for k in list(x)[::2]:
            x[k] = "scrambled"
        x["added"] = ["scrambled"]
        for k in list(x)[1::3]:
            del x[k]
    elif isinstance(x, list):
        for v in x:
            scramble(v, depth + 1)
        x.append("scrambled")
        x.insert(0, {"scrambled": True})
        if len(x) > 4:
            del x[2]


# --- C13 ---------------------------------------------------------------------
def c13_history(ctx, i):
    r = ctx.rng
    docs = pool(r, r.choice([2, 3, 6]))
    lines_of = [False, True]
    wants = {}

    def want(t, lines, tree):
        k = (t, lines and not tree, tree)
        if k not in wants:
            p = ctx.new_parser(lines)
            o = ctx.tree(t, p) if tree else ctx.parse(t, parser=p)
            wants[k] = okey(o)
        return wants[k]

    # the reference of half of the documents is taken up front, of the others when it is first needed (after other calls)
    for t in docs[: len(docs) // 2]:
        for lines in lines_of:
            want(t, lines, False)
    parsers = [(lines, ctx.parser(lines) if r.random() < 0.7 else ctx.new_parser(lines)) for lines in (False, True, r.random() < 0.5)]
    kept, trace = [], []
    for n in range(r.choice([8, 20, 40])):
        lines, p = r.choice(parsers)
        t = r.choice(docs)
        k = r.random()
        if k < 0.72:
            o = ctx.parse(t, parser=p)
            got, w = okey(o), want(t, lines, False)
            ctx.ran(repr((t, trace[-3:])))
            trace.append(("parse", lines, docs.index(t), o.kind()))
            if got != w:
                ctx.fail(f"the result depends on what was called before: {short(got)} instead of {short(w)}", text=t, history=trace[-12:], documents=docs)
                return
            if o.ok:
                if r.random() < 0.4:
                    scramble(o.value)
                    ctx.counts["results scrambled in place"] += 1
                else:
                    kept.append((o.value, got, t, n))
        elif k < 0.85:
            o = ctx.tree(t, p)
            ctx.ran(repr((t, trace[-3:])))
            trace.append(("tree", lines, docs.index(t), o.kind()))
            if okey(o) != want(t, lines, True):
                ctx.fail("the dump depends on what was called before", text=t, history=trace[-12:])
                return
        elif k < 0.93:
            bad = rich(r, "f", True)
            trace.append(("parse failing", lines, bad, ctx.parse(bad, parser=p).kind()))
        else:
            f = write(ctx, t.encode("utf-8", "replace"), "h.bicep")
            u = f.read_text(encoding="utf-8")
            o = ctx.call(p.parse, file_path=f)
            trace.append(("file", lines, docs.index(t), o.kind()))
            got, w = okey(o), want(u, lines, False)
            if got != w and not (got[0] == w[0] == "error" and got[1] == w[1]) and not u.startswith("\ufeff"):
                ctx.fail(f"the result of a file depends on what was called before: {short(got)} instead of {short(w)}", text=u, history=trace[-12:])
                return
        ctx.seen("steps", tuple(x[0] + ("" if x[3] == "ok" else "!") for x in trace[-3:]))
    for v, c, t, n in kept:
        if ("ok", canon(v)) != c:
            ctx.fail(f"the result of call {n} changed afterwards", text=t, history=trace)
            return
    ctx.counts["kept results unchanged"] += len(kept)


def c13_files(ctx, i):
    """one file with changing contents of the same size and time, and several files with the same content"""
    r = ctx.rng
    docs = [t.encode("utf-8", "replace").decode().replace("\r", "").replace("\ufeff", "") for t in pool(r, 4) + [f"var a = {n}\n" for n in range(3)]]
    docs = [d + "\n//" + r.choice("xy") for d in docs]
    size = max(len(d.encode()) for d in docs)
    docs = [d + "z" * (size - len(d.encode())) for d in docs]
    # texts that agree at both ends
    if i % 2:
        docs = ["//" + "z" * size + "\n" + d + "\n//" + "z" * size for d in docs]
    wants = {}
    keep = None
    files = [write(ctx, b"", f"same{k}.bicep") for k in range(2)]
    for n in range(10):
        lines = r.random() < 0.5
        t, f, p = r.choice(docs), r.choice(files), ctx.parser(lines)
        if (t, lines) not in wants:
            wants[t, lines] = okey(ctx.parse(t, parser=ctx.new_parser(lines)))
        f.write_bytes(t.encode())
        if keep is None:
            keep = os.stat(f)
        os.utime(f, ns=(keep.st_atime_ns, keep.st_mtime_ns))
        as_text = r.random() < 0.3
        o = ctx.parse(t, parser=p) if as_text else ctx.call(p.parse, file_path=f)
        ctx.ran(repr((t, n)))
        got, want = okey(o), wants[t, lines]
        if got != want and not (got[0] == want[0] == "error" and got[1] == want[1]):
            ctx.fail(f"the result of a {'text' if as_text else 'rewritten file'} depends on what was there before: {short(got)} instead of {short(want)}", text=t)
            break
        ctx.counts["files rewritten between calls"] += 1
        if o.ok and r.random() < 0.5:
            scramble(o.value)
    for f in files:
        f.unlink()


def collisions(r, length=80):
    """pairs of texts with equal length and equal check sum"""
    import random
    import zlib
    seed, pairs = r.randrange(4), []
    s = random.Random(seed)
    for fn in (zlib.crc32, zlib.adler32, sum):
        seen, pad = {}, "y" * length
        for _ in range(400000):
            t = f"var x = '{pad}{s.getrandbits(64):016x}'\nvar n = {s.randrange(10)}\n"
            h = fn(t.encode())
            if h in seen and seen[h] != t:
                pairs.append((seen[h], t))
                break
            seen[h] = t
    return pairs


def c13_sums(ctx, i):
    """different texts with the same length and the same check sum, characters exchanged, or equal in another normal form"""
    r = ctx.rng
    pairs = collisions(r, [20, 400, 2500, 10000][i % 4])
    pairs += [("var ab = 1\nvar x = '12'\n", "var ba = 1\nvar x = '21'\n"), ("var a = 'e\u0301'\n", "var a = '\u00e9'\n"), ("var a = 'A'\n", "var a = 'a'\n"), ("var a = 1\n", "var A = 1\n"), ("var a = ' x'\n", "var a = 'x '\n"),
              ("var a = 1\n", "var a = 1\n\n"), ("var a = '''\n\n'''", "var a = '''\n'''"), ("var a = '''\r\nx\r\n'''", "var a = '''\nx\n'''"), ("var a = 1 // b", "var a = 1 // c"), ("var a = true", "var a = 'true'"), ("var a = 1", "var a = '1'"),
              ("var a = b", "var a = 'b'"), ("\nvar a = 1", "var a = 1\n")]
    for a, b in pairs:
        for lines in (False, True):
            p = ctx.parser(lines)
            got = [okey(ctx.parse(t, parser=p)) for t in (a, b, a)]
            want = [okey(ctx.parse(t, parser=ctx.new_parser(lines))) for t in (b, a)][::-1]
            ctx.ran(repr((a, b, lines)))
            if got[0] != got[2] or got[:2] != want:
                return ctx.fail("the result of a text depends on a text much like it that was parsed before", text=a, other=b)
            dumps = [okey(ctx.tree(t, p)) for t in (a, b, a)]
            if dumps[0] != dumps[2]:
                return ctx.fail("the dump of a text depends on a text much like it", text=a, other=b)
    ctx.counts["pairs of texts much alike"] += len(pairs)


def c13_every_builder(ctx, i):
    """every function and decorator twice, the first result changed in place in between"""
    from .. import tables as T
    r = ctx.rng
    if i < len(T.ALL_FUNCS):
        f = T.ALL_FUNCS[i]
        lo, hi = T.arity_range(f)
        texts = [joined(Doc([Var("x", ("call", f, None, [I("a")] * n)), Var("y", ("call", f, T.namespace(f), [N(1)] * n))]).tokens(), r) for n in range(lo, hi + 1)]
    else:
        d = list(T.DECOS)[i - len(T.ALL_FUNCS)]
        arg = (("arr", [N(1)], []) if d == "allowed" else O(("k", N(1))) if d == "metadata" else N(1)) if T.DECOS[d][1] else None
        texts = [joined(Doc([Param("x", ("name", "int"), None, False, [Deco(d, False, arg), Deco(d, True, arg)]), Param("y", ("name", "int"), None, False, [Deco(d, False, arg)])]).tokens(), r)]
    for t in texts:
        for lines in (False, True):
            a = ctx.parse(t, lines)
            if not a.ok:
                ctx.ran(t)
                ctx.counts["rejected (judged by other properties)"] += 1
                continue
            c = canon(a.value)
            b = ctx.parse(t, lines)
            if not b.ok or canon(b.value) != c:
                ctx.fail("two calls give different results", text=t)
                continue
            scramble(b.value)
            if canon(a.value) != c:
                ctx.fail("changing one result changes another", text=t)
            d = ctx.parse(t, lines)
            ctx.ran(t + str(lines))
            if not d.ok or canon(d.value) != c:
                ctx.fail("changing a result changes later results", text=t, actual=repr(d.value)[:1500])


PROC_CODE = """
import json, sys, hashlib, random
sys.path.insert(0, sys.argv[1])
import pycep
from vt.checks.state import canon, digest, okey
from vt.core import Outcome
job = json.load(sys.stdin)
def run(f, **k):
    try: return Outcome(value=f(**k))
    except Exception as e: return Outcome(error=e)
ps = {False: pycep.BicepParser(cache=job["cache"]), True: pycep.BicepParser(add_line_numbers=True, cache=job["cache"])}
out = {}
for k in job["order"]:
    t = job["docs"][k]
    for lines in (False, True):
        o = run(ps[lines].parse, text=t)
        out.setdefault(f"{k} {lines} parse", []).append(digest(okey(o)))
    o = run(ps[False].create_tree, text=t)
    out.setdefault(f"{k} tree", []).append(digest(okey(o)))
print(json.dumps({k: sorted(set(v)) for k, v in out.items()}))
"""


def proc_digests(ctx, docs, order, env, cache=True, timeout=300):
    p = subprocess.run([sys.executable, "-B", "-c", PROC_CODE, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))], input=json.dumps({"docs": docs, "order": order, "cache": cache}),
                       capture_output=True, text=True, env=child_env(ctx, env), timeout=timeout)
    if p.returncode:
        return None, p.stderr[-1500:]
    return json.loads(p.stdout), None


def own_digests(ctx, docs, p0=None, p1=None):
    out = {}
    for k, t in enumerate(docs):
        out[f"{k} False parse"] = digest(okey(ctx.parse(t, parser=p0 or ctx.parser(False))))
        out[f"{k} True parse"] = digest(okey(ctx.parse(t, parser=p1 or ctx.parser(True))))
        out[f"{k} tree"] = digest(okey(ctx.tree(t, p0 or ctx.parser(False))))
    return out


def c13_processes(ctx, i):
    """the same documents in fresh processes: other hash seeds, other orders"""
    r = ctx.rng
    docs = [d for d in pool(r, 25) if d.isprintable() or True]
    docs = [d.encode("utf-8", "replace").decode() for d in docs]
    mine = own_digests(ctx, docs)
    order = [r.randrange(len(docs)) for _ in range(30)] + list(range(len(docs)))
    env = {"PYTHONHASHSEED": str(r.choice(["random", 1, 2, 12345, 4294967295])), "TZ": r.choice(["UTC", "Asia/Tokyo"]), "COLUMNS": "20"}
    if i % 4 == 3:
        env["PYTHONOPTIMIZE"] = "2"
    got, err = proc_digests(ctx, docs, order, env, cache=bool(i % 2))
    ctx.seen("environments", json.dumps(env))
    if err:
        ctx.ran(("proc", i))
        return ctx.fail(f"a fresh process cannot parse: {err}")
    for k, v in got.items():
        ctx.ran((docs[int(k.split()[0])], k, i))
        if v != [mine[k]]:
            ctx.fail(f"another process gives another result ({k}, {env})", text=docs[int(k.split()[0])])


def c13_repeat(ctx, i):
    """one document many times on one parser"""
    r = ctx.rng
    t = nearly(r) if i % 3 == 0 else pool(r, 1)[0]
    p = ctx.new_parser(bool(i % 2))
    first = None
    for n in range(60):
        o = ctx.parse(t, parser=p)
        k = okey(o)
        if first is None:
            first = k
        elif k != first:
            return ctx.fail(f"call {n} with the same text gives another result", text=t)
        if o.ok and n % 3 == 1:
            scramble(o.value)
    ctx.ran(t)
    # and a parser does not keep growing state that other instances see
    q = ctx.parse(t, parser=ctx.new_parser(bool(i % 2)))
    if okey(q) != first:
        ctx.fail("a fresh parser gives another result", text=t)


def c13_again(ctx, i):
    """failing documents over and over, in turn with their near relatives"""
    r = ctx.rng
    docs = [nearly(r) for _ in range(r.choice([1, 2, 4]))] + ["targetScope = 'tenant'\nmodule m 'br/a:b:c' = {}\nresource r 'A/b@1' = {}\nvar x = contains(a, b)\n"]
    ps = [ctx.new_parser(), ctx.parser(True)]
    first = {}
    for n in range(4 * len(docs)):
        t = docs[n % len(docs)]
        p = ps[(n // len(docs)) % 2]
        tree = (n // len(docs)) == 2
        k = okey(ctx.tree(t, p) if tree else ctx.parse(t, parser=p))
        w = (n % len(docs), p is ps[1] and k[0] == "ok", tree)
        ctx.ran(repr((t, n)))
        if first.setdefault(w, k) != k:
            return ctx.fail(f"call {n} with the same text gives another outcome: {short(k)} instead of {short(first[w])}", text=t, documents=docs)
        ok = first.setdefault((n % len(docs), tree), k[0])
        if ok != k[0]:
            return ctx.fail(f"call {n} with the same text gives {k[0]}, earlier {ok}", text=t, documents=docs)
        ctx.counts["repeated failures" if k[0] != "ok" else "repeated successes"] += 1


LONGSIZES = [300, 1100, 2100, 4200, 8300, 16500, 33000, 50000, 66000, 132000]


def c13_long(ctx, i):
    """texts of many lengths, parsed again after their results were changed, by the same and by other parsers, other texts in between"""
    r = ctx.rng
    size = LONGSIZES[i % len(LONGSIZES)]
    unit = r.choice([rich(r, "u") for _ in range(3)] + ["var x%d = [1, {a: 'b'}, f(x)]\n", "resource r%d 'A/b@1' = {\n  a: [1, 2]\n}\n", "@description('d')\nparam p%d object = {\n  a: []\n}\n", "module m%d './m.bicep' = {\n  params: {}\n}\n"])
    unit = unit.replace("targetScope = 'subscription'\n", "")
    text, k = "", 0
    while len(text) < size:
        text += unit.replace("%d", str(k))
        k += 1
    other = text[:len(text) // 2] + "var other = [2]\n" if "\n" not in text[len(text) // 2 - 1:len(text) // 2] else "var other = [2]\n" + text
    lines = bool(i // len(LONGSIZES) % 2)
    p, q = ctx.new_parser(lines), ctx.new_parser(lines)
    want = okey(ctx.parse(text, parser=ctx.new_parser(lines)))
    keep = None
    for n in range(4):
        o = ctx.parse(text, parser=q if n == 2 else p)
        ctx.ran((text, lines, n))
        ctx.seen("lengths parsed again", size)
        if okey(o) != want:
            return ctx.fail(f"call {n} with a text of {len(text)} characters gives another result", text=text[:3000])
        if not o.ok:
            return
        if keep is not None and okey(keep) != want:
            return ctx.fail("a kept result changed", text=text[:3000])
        if n == 1:
            keep = o
        else:
            scramble(o.value)
        if n == 1:
            ctx.parse(other, parser=p)


# --- C14 ---------------------------------------------------------------------
class Turns:
    """Lets one thread at a time run and passes the turn at random lines of the watched code.

    A thread that does not come back (it waits for a lock of the code under test) loses
    its turn after a moment, so locking is no deadlock here."""

    def __init__(self, rng, n, rate):
        self.r, self.rate = rng, rate
        self.cond = threading.Condition()
        self.live = set(range(n))
        self.cur = None
        self.beat = time.monotonic()
        self.switches = 0
        self.places = set()
        self.stolen = 0

    def wait_turn(self, me):
        while self.cur != me and me in self.live:
            if not self.cond.wait(0.05) and time.monotonic() - self.beat > 0.5:
                self.cur = me
                self.stolen += 1
        self.beat = time.monotonic()

    def start(self, me):
        with self.cond:
            if self.cur is None:
                self.cur = self.r.choice(sorted(self.live))
            self.wait_turn(me)

    def point(self, me, place):
        with self.cond:
            self.beat = time.monotonic()
            if self.r.random() < self.rate and len(self.live) > 1:
                self.cur = self.r.choice(sorted(self.live))
                if self.cur != me:
                    self.switches += 1
                    self.places.add(place)
                    self.cond.notify_all()
            if self.cur != me:
                self.wait_turn(me)

    def end(self, me):
        with self.cond:
            self.live.discard(me)
            if self.cur == me and self.live:
                self.cur = self.r.choice(sorted(self.live))
            self.cond.notify_all()


def watched(filename, deep):
    return filename.startswith(REPO + "/pycep") or (deep and ("/lark/" in filename))


def threads_run(jobs, rng, mode, deep=False, rate=0.2):
    """jobs: per thread a list of zero-argument calls; -> (outcomes per thread, Turns|None)"""
    n = len(jobs)
    outs = [[] for _ in jobs]
    turns = Turns(rng, n, rate) if mode == "turns" else None
    gate = threading.Barrier(n)
    seeds = [rng.random() for _ in jobs]

    def body(me):
        import random
        rr = random.Random(seeds[me])

        def local(frame, event, arg):
            if event == "line":
                if turns:
                    turns.point(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                elif rr.random() < rate:
                    time.sleep(0 if rr.random() < 0.8 else 0.0003)
            return local

        def tr(frame, event, arg):
            return local if watched(frame.f_code.co_filename, deep) else None
        gate.wait(60)
        if turns:
            turns.start(me)
        if mode != "free":
            sys.settrace(tr)
        try:
            for call in jobs[me]:
                outs[me].append(call())
        finally:
            sys.settrace(None)
            if turns:
                turns.end(me)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
    try:
        for t in ts:
            t.start()
        end = time.monotonic() + 120
        for t in ts:
            t.join(max(0.1, end - time.monotonic()))
        stuck = any(t.is_alive() for t in ts)
    finally:
        sys.setswitchinterval(old)
    return outs, turns, stuck


def quiet_call(fn, **k):
    from ..core import Outcome
    try:
        return Outcome(value=fn(**k))
    except Exception as e:
        return Outcome(error=e)


def c14(ctx, i, mode, deep=False, rate=0.2, big=False):
    r = ctx.rng
    n = r.choice([2, 2, 3, 4, 6])
    docs = []
    for k in range(r.choice([1, 2, 4])):
        docs.append(rich(r, r.choice(["a", f"t{k}_"])) if r.random() < 0.7 else pool(r, 1)[0])
    if big:
        docs = ["".join(rich(r, f"v{k}x{j}_", False) for j in range(12)).replace("targetScope = 'subscription'\n", "") for k in range(3)] + docs
    setup = r.random()
    base = [(lines, ctx.new_parser(lines)) for lines in (False, True)]
    if setup < 0.4:
        base = base[i % 2:][:1]
    wants, files = {}, {}
    d = os.path.join(ctx.scratch, f"c14-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    if i % 2:
        docs.append("var x = '''" + "a\n" * r.choice([0, 1, 20]))
    for k, t in enumerate(docs):
        files[t] = pathlib.Path(d) / f"{i}-{k}.bicep"
        files[t].write_bytes(t.encode("utf-8", "replace"))
    twins = [pathlib.Path(d) / f"{i}-t{k}.bicep" for k in range(n)]
    for f in twins:
        f.write_bytes(r.choice([docs[-1], LATE[-2]]).encode("utf-8", "replace"))

    def given(t):
        return {"file_path": t} if isinstance(t, pathlib.Path) else {"text": t}
    for t in [*docs, *files.values(), *twins]:
        for lines, p in base:
            wants[t, lines, "parse"] = okey(quiet_call(p.parse, **given(t)), True)
            wants[t, lines, "create_tree"] = okey(quiet_call(p.create_tree, **given(t)), True)
    jobs, plan = [], []
    for k in range(n):
        calls, names = [], []
        for _ in range(r.choice([1, 2, 3]) if mode == "turns" else r.choice([4, 10])):
            lines, p = r.choice(base)
            t = r.choice(docs)
            if r.random() < 0.3:
                t = twins[k] if r.random() < 0.5 else files[t]
                ctx.counts["concurrent calls on files"] += 1
            what = "parse" if r.random() < 0.85 else "create_tree"
            calls.append(lambda p=p, t=t, what=what: quiet_call(getattr(p, what), **given(t)))
            names.append((t, lines, what))
        jobs.append(calls)
        plan.append(names)
    outs, turns, stuck = threads_run(jobs, r, mode, deep, rate)
    for f in [*files.values(), *twins]:
        f.unlink()
    if stuck:
        ctx.ran(("stuck", i))
        return ctx.fail("concurrent calls do not come to an end", documents=docs)
    if turns:
        ctx.counts["forced thread switches"] += turns.switches
        ctx.counts["turns taken from a waiting thread"] += turns.stolen
        for pl in turns.places:
            ctx.seen("lines at which the running thread was switched", f"{pl[0]}:{pl[1]}")
    for k, (names, os_) in enumerate(zip(plan, outs)):
        if len(names) != len(os_):
            ctx.fail("a thread died", documents=docs)
        for nm, o in zip(names, os_):
            ctx.ran(repr((nm, i, k)), sample=f"{n} threads, {mode}: {str(nm[0])[:200]}")
            ctx.counts["concurrent calls " + o.kind()] += 1
            if okey(o, True) != wants[nm]:
                ctx.fail(f"a concurrent {nm[2]} call gives {short(okey(o, True))} instead of {short(wants[nm])}", text=str(nm[0]), threads=n, documents=docs)
                return


def c14_turns(ctx, i):
    """one thread at a time, the turn passed at random lines of pycep (of lark too in every third case)"""
    c14(ctx, i, "turns", deep=i % 3 == 2, rate=[0.5, 0.1, 0.02][i // 3 % 3] * (0.2 if i % 3 == 2 else 1))


def c14_yield(ctx, i):
    """threads run freely with random pauses at lines of pycep"""
    c14(ctx, i, "yield", deep=i % 4 == 3, rate=[0.3, 0.05][i % 2] * (0.1 if i % 4 == 3 else 1))


def c14_free(ctx, i):
    """threads run freely with a switch interval of a microsecond"""
    c14(ctx, i, "free", big=i % 2 == 0)


def c14_construct(ctx, i):
    """parsers constructed in threads at the same time"""
    r = ctx.rng
    docs = [rich(r, "a"), PROBE, "{"]
    want = {}
    for lines in (False, True):
        for t in docs:
            want[t, lines] = okey(quiet_call(ctx.parser(lines).parse, text=t))
    old = tempfile.tempdir
    tempfile.tempdir = os.path.join(ctx.scratch, f"tc{os.getpid()}-{i}")
    os.mkdir(tempfile.tempdir)
    plan = [bool(r.getrandbits(1)) for _ in range(r.choice([2, 4]))]

    def job(lines):
        p = ctx.new_parser(lines, cache=bool(i % 3))
        return [(t, lines, quiet_call(p.parse, text=t)) for t in docs]
    try:
        outs, _, stuck = threads_run([[lambda v=v: quiet_call(job, lines=v)] for v in plan], r, "free" if i % 2 else "yield", rate=0.05)
    finally:
        shutil.rmtree(tempfile.tempdir, ignore_errors=True)
        tempfile.tempdir = old
    if stuck:
        return ctx.fail("concurrent constructions do not come to an end")
    for os_ in outs:
        ctx.ran(("construct", i, len(ctx.hashes)))
        if not os_ or not os_[0].ok:
            ctx.fail(f"construction in a thread failed: {os_[0] if os_ else 'thread died'!r}")
            continue
        for t, lines, o in os_[0].value:
            if okey(o) != want[t, lines]:
                ctx.fail(f"a parser constructed in a thread gives {short(okey(o))}", text=t)


FIRST_CODE = """
import json, random, sys, threading
sys.path.insert(0, sys.argv[1])
job = json.load(sys.stdin)
if job["together"]:
    # even the import happens in all threads at once
    got = {}
    gate = threading.Barrier(job["threads"])
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    def load(k):
        gate.wait()
        import pycep
        got[k] = pycep.BicepParser
    ts = [threading.Thread(target=load, args=(k,)) for k in range(job["threads"])]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)
    if len(got) != job["threads"]:
        print(json.dumps({"died": job["threads"] - len(got)}))
        sys.exit()
import pycep
from vt.checks import state
r = random.Random(job["seed"])
ps = {v: pycep.BicepParser(add_line_numbers=v) for v in (False, True)}
def call(k, lines, what):
    o = state.quiet_call(getattr(ps[lines], what), text=job["docs"][k])
    return [k, lines, what, state.digest(state.okey(o)), state.short(state.okey(o))]
jobs = [[lambda x=x: call(*x) for x in plan] for plan in job["plans"]]
outs, turns, stuck = state.threads_run(jobs, r, job["mode"], False, job["rate"])
print(json.dumps({"stuck": stuck, "outs": outs, "switches": turns.switches if turns else 0}))
"""


def everything(r):
    """a document with calls of every known function and decorator, and one of everything else"""
    fs = [(f, n) for f in T.ALL_FUNCS for n in {T.arity_range(f)[0], T.arity_range(f)[1]}]
    r.shuffle(fs)
    ds = list(T.DECOS)
    r.shuffle(ds)
    doc = Doc([Var(f"e{k}", ("call", f, r.choice([None, None, "sys", "az"]) if k % 3 == 0 else None, [("id", f"a{j}") for j in range(n)])) for k, (f, n) in enumerate(fs)])
    return joined(doc.tokens(), r) + "".join(f"@{d}('x')\nparam d{k} string\n" for k, d in enumerate(ds)) + rich(r, "z").replace("targetScope = 'subscription'\n", "")


def c14_first(ctx, i):
    """a fresh process whose very first calls come from several threads at once"""
    r = ctx.rng
    docs = [everything(r), everything(r), rich(r, "a"), "var x = {\n", pool(r, 1)[0]]
    n = [2, 4, 8][i % 3]
    mode = ["turns", "free", "yield", "turns"][i % 4]
    plans = [[(0 if j == 0 and i % 2 else r.randrange(len(docs)), bool(r.getrandbits(1)), r.choice(["parse", "parse", "parse", "create_tree"]) if j else "parse") for j in range(r.choice([1, 2, 3]))] for _ in range(n)]
    p = subprocess.run([sys.executable, "-B", "-c", FIRST_CODE, VROOT], input=json.dumps({"docs": docs, "plans": plans, "mode": mode, "rate": r.choice([0.02, 0.1, 0.4]), "seed": r.random(), "threads": n, "together": i % 5 == 4}),
                       capture_output=True, text=True, env=child_env(ctx, {}), timeout=200)
    ctx.ran(("first", i, ctx.rng.random()), sample=f"{n} threads, {mode}, fresh process")
    if p.returncode:
        return ctx.fail(f"a fresh process whose first calls are concurrent ends with status {p.returncode}: {p.stderr[-600:]}", documents=docs)
    out = json.loads(p.stdout)
    if out.get("died"):
        return ctx.fail("importing pycep in several threads at once fails in some of them", error=p.stderr[-1500:])
    if out["stuck"]:
        return ctx.fail("concurrent first calls do not come to an end", documents=docs)
    ctx.counts["forced thread switches in first calls"] += out["switches"]
    for plan, os_ in zip(plans, out["outs"]):
        if len(plan) != len(os_):
            ctx.fail("a thread died", documents=docs, error=p.stderr[-1500:])
        for k, lines, what, dig, text in os_:
            ctx.counts["concurrent first calls"] += 1
            o = ctx.parse(docs[k], parser=ctx.parser(lines)) if what == "parse" else ctx.tree(docs[k], ctx.parser(lines))
            if digest(okey(o)) != dig:
                return ctx.fail(f"a concurrent first {what} gives another result: {text[:300]}", text=docs[k], threads=n, mode=mode)


# --- C15 ---------------------------------------------------------------------
_c15 = {}


def c15_setup(ctx):
    """reference: parsers without cache, in a directory of their own"""
    logging.disable(logging.CRITICAL)
    import random
    r = random.Random("c15")
    docs = [PROBE, "", "{", "var a = 'x'", "var a = '''\nx'''"] + [rich(r, "a") for _ in range(5)] + [joined(G(r, None, 2).doc().tokens(), r) for _ in range(8)]
    d = os.path.join(ctx.scratch, "c15ref")
    os.mkdir(d)
    with tmp(d):
        ps = [ctx.new_parser(v, cache=False) for v in (False, True)]
        _c15["left"] = os.listdir(d)
    _c15["docs"], _c15["want"], _c15["ps"] = docs, own_digests(ctx, docs, *ps), ps
    # an intact cache file, by name and content, and a second one written under another order of sets
    d = os.path.join(ctx.scratch, "c15warm")
    os.mkdir(d)
    with tmp(d):
        ctx.new_parser(False)
    _c15["files"] = {}
    for f in os.listdir(d):
        with open(os.path.join(d, f), "rb") as fh:
            _c15["files"][f] = fh.read()


class tmp:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = tempfile.tempdir
        tempfile.tempdir = self.d

    def __exit__(self, *a):
        tempfile.tempdir = self.old


def fresh_dir(ctx):
    d = os.path.join(ctx.scratch, f"c{os.getpid()}-{ctx.counts['cache directories']}")
    ctx.counts["cache directories"] += 1
    os.mkdir(d)
    return d


def same_as_uncached(ctx, d, what, times=2, known=None):
    """constructs parsers with the cache in d and compares them with the uncached one; -> True if all is equal"""
    for n in range(times):
        with tmp(d):
            o = [ctx.call(ctx.new_parser, v) for v in ((False, True) if n % 2 == 0 else (True, False))]
        for x in o:
            if not x.ok:
                ctx.ran((what, n))
                ctx.fail(f"construction fails, cache {what}: {x!r}")
                return False
        ps = [x.value for x in o] if n % 2 == 0 else [o[1].value, o[0].value]
        got = own_digests(ctx, _c15["docs"], *ps)
        ctx.ran((what, n), sample=f"cache {what}, construction {n + 1}")
        bad = [k for k in got if got[k] != _c15["want"][k]]
        if bad:
            msg = f"with the cache {what}, construction {n + 1}: {len(bad)} of {len(got)} calls give something else than without cache"
            if known:
                ctx.known(known, msg)
            else:
                ctx.fail(msg, text=_c15["docs"][int(bad[0].split()[0])], call=bad[0])
            return False
    return True


def put(d, data, suffix=""):
    for f, orig in _c15["files"].items():
        x = data(orig) if callable(data) else data
        with open(os.path.join(d, f + suffix), "wb") as fh:
            fh.write(x)


def split(orig):
    """header line, pickled list of used files, the rest"""
    import io
    k = orig.index(b"\n") + 1
    b = io.BytesIO(orig[k:])
    pickle.load(b)
    return orig[:k], orig[k:k + b.tell()], orig[k + b.tell():]


P = pickle.dumps
STATES = {
    "missing": None, "warm": lambda o: o, "empty": b"", "a line break": b"\n", "header only": lambda o: split(o)[0], "header without line break": lambda o: split(o)[0][:-1], "header and file list": lambda o: b"".join(split(o)[:2]),
    "cut in half": lambda o: o[:len(o) // 2], "without its last byte": lambda o: o[:-1], "without its first byte": lambda o: o[1:], "text": b"this is no cache\n", "binary": bytes(range(256)) * 50, "zeros": lambda o: b"\0" * len(o), "of another version": lambda o: b"0" * 64 + o[64:],
    "of another version, cut": lambda o: b"0" * 64 + o[64:200], "null payload": lambda o: split(o)[0] + split(o)[1] + P(None), "empty payload": lambda o: split(o)[0] + split(o)[1] + P({}), "list payload": lambda o: split(o)[0] + split(o)[1] + P([1, 2]),
    "half a payload": lambda o: split(o)[0] + split(o)[1] + P({"data": {}, "memo": {}}), "foreign payload": lambda o: split(o)[0] + split(o)[1] + P({"data": {"parser": 1, "rules": [], "options": {}}, "memo": {}}), "no file list": lambda o: split(o)[0] + P(None) + split(o)[2], "odd file list": lambda o: split(o)[0] + P({"/nonexistent": "x"}) + split(o)[2],
    "text file list": lambda o: split(o)[0] + P("x") + split(o)[2], "longer": lambda o: o + b"trailing bytes" * 100, "twice": lambda o: o + o, "with a hole": lambda o: o[:65536] + b"\0" * 65536 + o[131072:], "with a hole at the start": lambda o: b"\0" * 4096 + o[4096:],
    "with pages exchanged": lambda o: o[:8192] + o[12288:16384] + o[8192:12288] + o[16384:], "with CRLF": lambda o: o.replace(b"\n", b"\r\n"), "as text": lambda o: o.decode("latin-1").encode("utf-8"), "upper case header": lambda o: o[:64].upper() + o[64:], "JSON": b'{"data": {}, "memo": {}}', "a stop opcode": lambda o: split(o)[0] + b".",
    "an exception": lambda o: split(o)[0] + split(o)[1] + b"\x80\x04\x8c\x08builtins\x8c\x09NoSuchAtt\x93.", "a missing module": lambda o: split(o)[0] + split(o)[1] + b"\x80\x04\x8c\x0bno_such_mod\x8c\x01x\x93.", "huge frame": lambda o: split(o)[0] + split(o)[1] + b"\x80\x04\x95\xff\xff\xff\xff\xff\xff\xff\x7f.",
}
PATHS = ["directory", "directory with content", "dangling link", "link loop", "link to the file", "link into a missing directory", "read-only file", "unreadable by name"]


def c15_states(ctx, i):
    names = list(STATES)
    for n in names[i::8] if ctx.tier == "quick" else names[i::8] * 2:
        d = fresh_dir(ctx)
        if STATES[n] is not None:
            put(d, STATES[n])
        ctx.seen("cache states", n)
        ok = same_as_uncached(ctx, d, f"({n})")
        if ok:
            with tmp(d):
                u = ctx.new_parser(True, cache=False)
            if own_digests(ctx, _c15["docs"][:4], u, u)["0 True parse"] != _c15["want"]["0 True parse"]:
                ctx.fail(f"a parser without cache is affected by the cache ({n})")
        shutil.rmtree(d)


def c15_paths(ctx, i):
    """something else than a file at the place of the cache"""
    d = fresh_dir(ctx)
    n = PATHS[i % len(PATHS)]
    ctx.seen("cache states", n)
    for f, orig in _c15["files"].items():
        p = os.path.join(d, f)
        if n.startswith("directory"):
            os.mkdir(p)
            if "content" in n:
                with open(os.path.join(p, "x"), "w") as fh:
                    fh.write("x")
        elif n == "dangling link":
            os.symlink(os.path.join(d, "nowhere"), p)
        elif n == "link loop":
            os.symlink(p, p)
        elif n == "link into a missing directory":
            os.symlink(os.path.join(d, "no", "where"), p)
        elif n == "link to the file":
            with open(p + ".real", "wb") as fh:
                fh.write(orig[: len(orig) if i % 2 else 1000])
            os.symlink(p + ".real", p)
        elif n == "read-only file":
            with open(p, "wb") as fh:
                fh.write(orig[:5000])
            os.chmod(p, 0o400)
        else:
            with open(p, "wb") as fh:
                fh.write(orig)
            os.chmod(p, 0)
    same_as_uncached(ctx, d, f"({n})")
    shutil.rmtree(d)
    same_as_uncached(ctx, d, "directory missing", 1)


def c15_cut(ctx, i):
    """the cache cut at offsets all over it, as an interrupted writer leaves it"""
    r = ctx.rng
    n = min(len(o) for o in _c15["files"].values()) if _c15["files"] else 1
    cases = 3 if ctx.tier == "quick" else 8
    for j in range(cases):
        k = [r.randrange(min(400, n)), r.randrange(n), 65536 * r.randint(0, 3) + r.choice([-1, 0, 1, 221, 232]), n - r.randint(1, 300)][(i + j) % 4]
        d = fresh_dir(ctx)
        k = max(0, min(k, n - 1))
        put(d, lambda o: o[:k])  # noqa: B023
        ctx.seen("lengths of cut caches (in 10000)", k // 10000)
        same_as_uncached(ctx, d, f"cut after {k} bytes", 1)
        # a reader repairs it or leaves it; the next one has to cope
        same_as_uncached(ctx, d, f"cut after {k} bytes and used once", 1)
        shutil.rmtree(d)


def c15_flips(ctx, i):
    """finding: flipped bits inside the payload of an otherwise intact cache are not noticed.

    Such a cache may contain anything, so it is used in a child with limits."""
    r = ctx.rng
    d = fresh_dir(ctx)

    def flip(o):
        b = bytearray(o)
        h = len(split(o)[0]) + len(split(o)[1])
        # first a bit of the keyword "targetScope", then any
        k = bytes(b).find(b"targetScope", h) if i == 0 else -1
        b[k + 10 if k >= 0 else r.randrange(h, len(b))] ^= 1 << (r.randrange(8) if i else 0)
        return bytes(b)
    put(d, flip)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            resource.setrlimit(resource.RLIMIT_CPU, (40, 40))
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            with tmp(d):
                ps = [ctx.new_parser(v) for v in (False, True)]
            code = 0 if own_digests(ctx, _c15["docs"], *ps) == _c15["want"] else 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    ctx.ran(("flip", i))
    ctx.counts["flipped bits " + ("without effect" if status == 0 else "with effect")] += 1
    if status:
        ctx.known("flipped-bits", "a flipped bit in the cache changes what the parser does")
    shutil.rmtree(d)


def c15_docs(ctx, i):
    """random documents: parsers from a warm cache and without cache"""
    r = ctx.rng
    d = fresh_dir(ctx)
    put(d, lambda o: o)
    with tmp(d):
        ps = [ctx.new_parser(v) for v in (False, True)]
    for _ in range(60 if ctx.tier == "quick" else 150):
        t = pool(r, 1)[0]
        if r.random() < 0.2:
            k = r.randint(0, len(t))
            t = t[:k] + t[k + 1:]
        turn = r.random() < 0.3
        for p, q in zip(ps, _c15["ps"]):
            if turn:    # the option set anew on an existing parser
                p.add_line_numbers = q.add_line_numbers = not q.add_line_numbers
            a, b = okey(ctx.parse(t, parser=p)), okey(ctx.parse(t, parser=q))
            if turn:
                p.add_line_numbers = q.add_line_numbers = not q.add_line_numbers
                ctx.counts["documents parsed with the option turned"] += 1
            if a != b:
                ctx.fail(f"cached {short(a)}, uncached {short(b)}", text=t)
        a, b = okey(ctx.tree(t, ps[0])), okey(ctx.tree(t, _c15["ps"][0]))
        ctx.ran(t)
        if a != b:
            ctx.fail("cached and uncached parser dump differently", text=t)
    shutil.rmtree(d)


START_CODE = """
import sys, json, os, time, tempfile, logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, sys.argv[1])
tempfile.tempdir = sys.argv[2]
from vt.checks.state import okey, digest
from vt.core import Outcome
import pycep
docs = json.load(sys.stdin)
lim = int(sys.argv[3])
if lim >= 0:
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
print("ready", flush=True)
os.read(int(sys.argv[4]), 1)
time.sleep(float(sys.argv[5]))
out = {}
ps = {v: pycep.BicepParser(add_line_numbers=v) for v in (False, True)}
def run(f, **k):
    try: return Outcome(value=f(**k))
    except Exception as e: return Outcome(error=e)
for k, t in enumerate(docs):
    for v in (False, True):
        out[f"{k} {v} parse"] = digest(okey(run(ps[v].parse, text=t)))
    out[f"{k} tree"] = digest(okey(run(ps[False].create_tree, text=t)))
print(json.dumps(out), flush=True)
"""
VROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def launch(ctx, d, gate, limit=-1, delay=0.0, seed="random"):
    p = subprocess.Popen([sys.executable, "-B", "-c", START_CODE, VROOT, d, str(limit), str(gate), str(delay)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         env=child_env(ctx, {"PYTHONHASHSEED": str(seed)}), pass_fds=[gate])
    p.stdin.write(json.dumps(_c15["docs"]))
    p.stdin.close()
    return p


def finished(ctx, p, what):
    out, err = p.stdout.read(), p.stderr.read()
    p.wait(timeout=120)
    lines = [x for x in out.split("\n") if x.startswith("{")]
    ctx.ran((what, len(ctx.hashes)), sample=what)
    if p.returncode or not lines:
        return ctx.fail(f"{what}: a process fails: {err[-1200:]}")
    got = json.loads(lines[0])
    bad = [k for k in got if got[k] != _c15["want"][k]]
    if bad:
        ctx.fail(f"{what}: {len(bad)} of {len(got)} calls give something else than without cache", text=_c15["docs"][int(bad[0].split()[0])], call=bad[0])


def c15_together(ctx, i):
    """processes that construct parsers at the same time over a missing, warm or damaged cache; some are killed while they do"""
    r = ctx.rng
    d = fresh_dir(ctx)
    state = ["missing", "cut in half", "warm", "empty", "of another version", "longer"][i % 6]
    if STATES[state] is not None:
        put(d, STATES[state])
    n = r.choice([2, 3, 4])
    rd, wr = os.pipe()
    kill = i % 3 == 2
    limit = i % 5 == 4
    ps = [launch(ctx, d, rd, r.choice([0, 100, 3000, 70000, 140000, 200000]) if limit and k == 0 else -1, r.choice([0, 0, 0.002, 0.01, 0.05]), r.choice(["random", 1, 2])) for k in range(n)]
    for p in ps:
        p.stdout.readline()
    os.write(wr, b"x" * n)
    victims = []
    if kill:
        v = ps[0]
        # killed around the moment the cache file appears or grows
        target = r.choice([0, 1, 60000, 130000, 200000])
        end = time.monotonic() + 5
        while time.monotonic() < end and v.poll() is None:
            if any(os.path.getsize(f) >= target for f in glob.glob(d + "/.*") if os.path.isfile(f)):
                break
        time.sleep(r.choice([0, 0, 0.0005, 0.002, 0.01]))
        v.kill()
        victims.append(v)
        ctx.counts["processes killed"] += 1
    for p in ps:
        if p in victims:
            p.wait()
            p.stdout.close()
            p.stderr.close()
            for f in glob.glob(d + "/.*"):
                if os.path.isfile(f):
                    ctx.seen("cache size when a writer was killed (in 10000)", os.path.getsize(f) // 10000)
            continue
        finished(ctx, p, f"{n} processes at once, cache {state}" + (", one killed" if kill else "") + (", one out of space" if limit else ""))
    os.close(rd)
    os.close(wr)
    ctx.seen("joint starts", (state, n, kill, limit))
    same_as_uncached(ctx, d, "left behind by processes started at once", 1)
    shutil.rmtree(d)


def c15_space(ctx, i):
    """a writer runs out of space after so many bytes; the next process finds what it left"""
    r = ctx.rng
    d = fresh_dir(ctx)
    lim = [0, 1, 64, 65, 66, 200, 221, 222, 1000, 65535, 65536, 65757, 131072, 196608, 240000][i % 15] + (r.randrange(50) if i >= 15 else 0)
    rd, wr = os.pipe()
    p = launch(ctx, d, rd, lim)
    p.stdout.readline()
    os.write(wr, b"x")
    finished(ctx, p, f"out of space after {lim} bytes")
    os.close(rd)
    os.close(wr)
    for f in glob.glob(d + "/.*"):
        if os.path.isfile(f):
            ctx.seen("bytes left by a writer without space", os.path.getsize(f))
    same_as_uncached(ctx, d, f"left by a writer that ran out of space after {lim} bytes", 1)
    shutil.rmtree(d)


NOTMP_CODE = "import resource, sys\nresource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))\nimport pycep\nfor v in (False, True):\n    print(pycep.BicepParser(add_line_numbers=v).parse(text=\"var a = 'x'\"))\n"


def c15_notmp(ctx, i):
    """no usable directory for temporary files at all"""
    env = [{}, {"TMPDIR": "/nonexistent"}, {"TMPDIR": ""}, {"TMPDIR": "/proc"}][i % 4]
    p = subprocess.run([sys.executable, "-B", "-c", NOTMP_CODE], capture_output=True, text=True, env=child_env(ctx, env), cwd=fresh_dir(ctx), timeout=120)
    ctx.ran(("no tmp", i))
    if p.returncode or "'x'" not in p.stdout:
        ctx.fail(f"without a usable temporary directory: {p.stderr[-800:]}")


def c15_nobody(ctx, i):
    """an unprivileged user and a place that cannot be written or read"""
    if os.geteuid():
        return ctx.ran(("not root", i))
    d = fresh_dir(ctx)
    state = ["missing", "warm", "warm unreadable", "cut in half", "cut unreadable", "no access to the directory", "no user name"][i % 7]
    ctx.seen("cache states for an unprivileged user", state)
    if state in ("warm", "warm unreadable"):
        put(d, lambda o: o)
    if state.startswith("cut"):
        put(d, lambda o: o[:len(o) // 2])
    # the name of the cache file contains the user name
    for f in list(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as fh:
            data = fh.read()
        for user in ("nobody", "unknown"):
            g = os.path.join(d, f.replace("root", user))
            with open(g, "wb") as fh:
                fh.write(data)
            os.chmod(g, 0 if "unreadable" in state else 0o644)
    os.chmod(d, 0 if "no access" in state else 0o555)
    os.chmod(ctx.scratch, 0o755)
    sub = Ctx(ctx.prop, ctx.tier, ctx.seed, ctx.scratch)
    sub.stream, sub.i = ctx.stream, ctx.i

    def go():
        for k in ("LOGNAME", "USER", "LNAME", "USERNAME"):
            os.environ.pop(k, None)
            if state != "no user name":
                os.environ[k] = "nobody"
        same_as_uncached(sub, d, f"unwritable, {state}", 1)
        return {"fails": [(f["message"], f.get("text", "")) for f in sub.fails], "n": sub.counts["evaluations"]}
    res = as_nobody(go)
    if "harness" in res:
        ctx.counts["unprivileged run impossible: " + res["harness"][:80]] += 1
        return ctx.ran(("nobody", i), False)
    for _ in range(res["n"]):
        ctx.ran(("nobody", state))
    for m, t in res["fails"]:
        ctx.fail(m, text=t)
    os.chmod(d, 0o700)
    shutil.rmtree(d)


def c15_left(ctx, i):
    """a parser without cache leaves nothing behind and reads nothing"""
    ctx.ran(("left", i))
    if _c15["left"]:
        ctx.fail(f"a parser without cache wrote {_c15['left']}")


HIST = "runtime monitoring of call histories: differential oracle against fresh parsers and fresh processes"
CHECKS = {
    "C13": Check([
        Stream("histories", c13_history, 600, 12000, rule="8 to 40 calls on three parsers, results scrambled or kept"), Stream("builders", c13_every_builder, 73, 73, rule="every built-in function and decorator, every argument count"),
        Stream("processes", c13_processes, 16, 160, rule="55 calls in a fresh process with another hash seed and order"), Stream("repeated", c13_repeat, 64, 1200), Stream("failing again", c13_again, 1500, 20000, rule="documents rejected for one detail, parsed over and over by two parsers"),
        Stream("long", c13_long, 40, 600, rule="texts of 300 to 132000 characters parsed again after their results were changed"), Stream("sums", c13_sums, 8, 64, rule="pairs of texts with equal length and check sum"), Stream("files", c13_files, 160, 4000, rule="a file with changing contents of the same size and time; texts that differ in the middle only"),
    ], "distinct (document, recent history) pairs and process runs", HIST, "results compared in full (types included) with those of a fresh parser; kept results compared again at the end", assumptions=ASSUME[1:]),
    "C14": Check([
        Stream("turns", c14_turns, 480, 6000, rule="one thread at a time, turn passed at random lines"), Stream("pauses", c14_yield, 100, 1400), Stream("free", c14_free, 100, 1400), Stream("construction", c14_construct, 24, 240), Stream("first calls", c14_first, 48, 480, rule="fresh processes, first calls (and imports) in two to eight threads"),
    ], "distinct (call, schedule) pairs", "runtime monitoring of concurrent calls: forced thread switches at code lines (trace hooks), injected pauses, differential oracle against sequential calls",
        "two to six threads; a switch can be forced at every line of pycep and, in a third of the cases, of lark", assumptions=["CPython with the GIL (the interpreter installed); switches inside one bytecode instruction do not exist there", *ASSUME[1:]]),
    "C15": Check([
        Stream("states", c15_states, 8, 8, rule="named states of the cache file"), Stream("paths", c15_paths, 16, 16), Stream("cut", c15_cut, 24, 240), Stream("documents", c15_docs, 8, 64), Stream("together", c15_together, 36, 400),
        Stream("space", c15_space, 15, 120), Stream("no place", c15_notmp, 4, 4), Stream("unprivileged", c15_nobody, 7, 14), Stream("flips", c15_flips, 24, 200, limit=200), Stream("nothing left", c15_left, 1),
    ], "distinct (cache state, construction) pairs and documents", "runtime monitoring with fault injection: cache files damaged, cut, replaced; writers killed or out of space; processes started together; differential oracle against an uncached parser",
        "cache states, cut points and joint starts observed; documents of a fixed and a random pool", level="fault_enumeration", setup=c15_setup, assumptions=["lark's cache file format (one header line, two pickles) is used only to build damaged files", *ASSUME[1:]]),
}
