"""An independent recogniser: could these characters be a document at all?

It reads more than the language: line breaks count as blanks, keywords may be names, an operator may take any value on
either side, items need no separators. What even this reading has no place for is malformed beyond doubt.
may_be(text) is True (there is a reading), False (there is none) or None (not decided: too long, or a comment that could
be two things)."""
import re
import sys
from .gen import valid_raw

GAP = re.compile(r"[ \t]+")
NL = re.compile(r"(\r?\n)+")
WORDRE = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*")
DIGITS = re.compile(r"[0-9]+")
PUNCT = set("=(){}[],:?!|.<>&~+-*/%@")
DECORATED = {"param", "var", "output", "resource", "module", "type", "func"}


def scan_string(t, i):
    """end of the single-quoted string that starts at i, or -1"""
    if t.startswith("''", i + 1):
        return -1
    j = i + 1
    while True:
        j = t.find("'", j)
        if j < 0:
            return -1
        if loose(t[i + 1:j]):
            return j + 1
        j += 1


def loose(raw):
    """valid_raw, or with two inner strings side by side"""
    return valid_raw(raw) or ("'" in raw and valid_raw(re.sub(r"'(?=')", "' ", raw)))


def lex(t):
    out, i, n = [], 0, len(t)
    gap = "none"        # between this token and the one before: none, blank, far
    while i < n:
        c = t[i]
        m = GAP.match(t, i)
        if m:
            gap, i = ("blank" if gap == "none" else gap), m.end()
            continue
        m = NL.match(t, i)
        if m:
            gap, i = "far", m.end()
            continue
        if c == "#":
            j = t.find("\n", i)
            gap, i = "far", n if j < 0 else j
            continue
        if t.startswith("//", i):
            if t.startswith("//*", i):
                return None
            j = t.find("\n", i)
            gap, i = "far", n if j < 0 else j
            continue
        if t.startswith("/*", i):
            j = t.find("*/", i + 2)
            if j >= 0:
                if t.startswith("/*/", i):
                    return None
                gap, i = "far", j + 2
                continue
        if t.startswith("'''", i):
            j = t.find("'''", i + 3)
            while j >= 0 and t[j + 3:j + 4] == "'":
                j += 1
            if j < 0:
                return False
            out.append(("m", "", gap))
            gap, i = "none", j + 3
            continue
        if c == "'":
            j = scan_string(t, i)
            if j < 0:
                return False
            out.append(("s", "", gap))
            gap, i = "none", j
            continue
        m = WORDRE.match(t, i)
        if m:
            out.append(("w", m.group(), gap))
            gap, i = "none", m.end()
            continue
        m = DIGITS.match(t, i)
        if m:
            out.append(("n", m.group(), gap))
            gap, i = "none", m.end()
            continue
        if c in PUNCT:
            out.append(("p", c, gap))
            gap, i = "none", i + 1
            continue
        return False
    return out


class Reader:
    """each rule gives the set of token positions at which it can end"""

    def __init__(self, toks):
        self.t = toks + [("e", "", "far")] * 4
        self.memo = {}

    def p(self, i, s):
        """position behind the characters s, which must touch each other, or -1"""
        for k, c in enumerate(s):
            x = self.t[i + k]
            if x[0] != "p" or x[1] != c or (k and x[2] != "none"):
                return -1
        return i + len(s)

    def word(self, i, w=None):
        x = self.t[i]
        return x[0] == "w" and (w is None or x[1] == w)

    def call(self, rule, i):
        k = (rule, i)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = frozenset(getattr(self, rule)(i))
        return r

    def then(self, ends, s):
        return {j for j in (self.p(e, s) for e in ends) if j >= 0}

    def each(self, ends, rule):
        return {j for e in ends for j in self.call(rule, e)}

    def listed(self, ends, rule):
        """rule ("," rule)*"""
        out, todo = set(), self.each(ends, rule)
        while todo:
            out |= todo
            todo = self.each(self.then(todo, ","), rule) - out
        return out

    # values
    def fname(self, i):
        """position of the opening bracket of a call, or -1"""
        if self.word(i, "sys") or self.word(i, "az"):
            if self.p(i + 1, ".") > 0 and self.t[i + 1][2] == "none" and self.t[i + 2][2] == "none":
                i += 2
        return i + 1 if self.word(i) and self.p(i + 1, "(") > 0 and self.t[i + 1][2] != "far" else -1

    def decorator_name(self, i):
        if self.word(i, "sys") and self.p(i + 1, ".") > 0:
            i += 2
        return i + 1 if self.word(i) and self.p(i + 1, "(") > 0 else -1

    def unit(self, i):
        kind, text, _ = self.t[i]
        out = set()
        if kind in "sm":
            return {i + 1}
        if kind == "n":
            return {i + 1}
        if kind == "w":
            b = self.fname(i)
            if b > 0:
                args = {b + 1} | self.listed({b + 1}, "value")
                out |= self.then(args, ")")
            if not (text in ("sys", "az") and self.p(i + 1, ".") > 0 and self.t[i + 1][2] == "none"):
                out.add(i + 1)
            return out
        if text == "[":
            return self.call("array", i)
        if text == "{":
            return self.call("object", i)
        if text == "(":
            inner = self.call("value", i + 1)
            out |= self.then(inner, ")")
            many = self.listed(self.then(inner, ","), "value")
            return out | self.each(self.then(many, ")=>") | self.apart(many), "value")
        if text in ("!", "-"):
            return self.call("value", i + 1)
        return out

    def apart(self, ends):
        """")" and "=>" with a gap between them"""
        return {j for e in ends if self.p(e, ")") > 0 for j in [self.p(e + 1, "=>")] if j > 0}

    BINARY = [">=", "<=", ">", "<", "==", "!=", "=~", "!~", "&&", "||", "??", "+", "-", "*", "/", "%", "=>", "::", "."]

    def value(self, i):
        out, todo = set(), set(self.call("unit", i))
        while todo:
            e = todo.pop()
            if e in out:
                continue
            out.add(e)
            if self.t[e][0] != "p":
                continue
            new = set()
            for op in self.BINARY:
                j = self.p(e, op)
                if j > 0:
                    new |= self.call("value", j)
                    if op == "." and self.p(j, "?") > 0:
                        new |= self.call("value", j + 1)
            c = self.t[e][1]
            if c == "!":
                new.add(e + 1)
            elif c == "[":
                j = e + 2 if self.p(e + 1, "?") > 0 else e + 1
                new |= self.then(self.call("value", j), "]")
            elif c == "?":
                new |= self.each(self.then(self.call("value", e + 1), ":"), "value")
            todo |= new - out
        return out

    def array(self, i):
        out, todo = set(), {i + 1}
        while todo:
            out |= todo
            todo = self.listed(todo, "value") - out
        return self.then(out, "]")

    def object(self, i):
        if self.p(i, "{") < 0:
            return set()
        out, todo = set(), {i + 1}
        while todo:
            out |= todo
            todo = (self.listed(todo, "pair") | self.each(todo, "child")) - out
        return self.then(out, "}")

    def pair(self, i):
        if self.t[i][0] not in "ws":
            return set()
        j = self.p(i + 1, ":")
        if j < 0:
            return set()
        v = self.call("value", j) | self.call("loop", j)
        return v | self.then(v, "?")

    def child(self, i):
        return self.call("resource_", i) if self.word(i, "resource") else set()

    def loop(self, i):
        if self.p(i, "[") < 0 or not (self.t[i + 1][0] == "w" and self.t[i + 1][1].startswith("for")):
            return set()
        heads = set()
        if self.t[i + 1][1] == "for":
            if self.word(i + 2):
                heads.add(i + 3)
            if self.p(i + 2, "(") > 0 and self.word(i + 3) and self.p(i + 4, ",") > 0 and self.word(i + 5) and self.p(i + 6, ")") > 0:
                heads.add(i + 7)
        else:
            heads.add(i + 2)
        coll = self.each({h + 1 for h in heads if self.word(h, "in")}, "value")
        body = self.each(self.then(coll, ":"), "value")
        return self.then(body | self.each(body, "value"), "]")

    # types
    def data_type(self, i):
        out = {i + 1} if self.word(i) else set()
        if self.p(i, "(") > 0:
            one = self.call("data_type", i + 1)
            done, todo = set(), self.each(self.then(one, "|"), "data_type")
            while todo:
                done |= todo
                todo = self.each(self.then(todo, "|"), "data_type") - done
            out |= self.then(done, ")")
        todo = set(out)
        while todo:
            todo = {e + 2 for e in todo if self.p(e, "[") > 0 and self.p(e + 1, "]") > 0} - out
            out |= todo
        return out

    def type_value(self, i):
        out, todo = set(), set(self.call("value", i))
        while todo:
            out |= todo
            todo = self.each(self.then(todo, "|"), "value") - out
        return out

    # declarations
    def alias(self, i):
        if not (self.word(i) or self.p(i, "*") > 0):
            return set()
        return {i + 1} | ({i + 3} if self.word(i + 1, "as") and self.word(i + 2) else set())

    def body(self, i):
        out = self.call("object", i) | self.call("loop", i)
        if self.word(i, "if") and self.p(i + 1, "(") > 0:
            out |= self.each(self.then(self.call("value", i + 2), ")"), "value")
        return out

    def resource_(self, i):
        if not (self.word(i + 1) and self.t[i + 2][0] == "s"):
            return set()
        ends = {i + 3} | ({i + 4} if self.word(i + 3, "existing") else set())
        return self.each(self.then(ends, "="), "body")

    def argument(self, i):
        return self.call("data_type", i + 1) if self.word(i) else set()

    def element(self, i):
        start, deco = i, False
        ends = {i}
        if self.p(i, "@") > 0:
            deco, ends, todo = True, set(), {i}
            while todo:
                nxt = set()
                for e in todo:
                    if self.p(e, "@") > 0:
                        b = self.decorator_name(e + 1)
                        if b > 0:
                            nxt |= self.then({b + 1} | self.call("value", b + 1), ")")
                todo = nxt - ends
                ends |= todo
        out = set()
        for e in ends:
            if self.t[e][0] == "w" and (not deco or self.t[e][1] in DECORATED):
                out |= self.declaration(e)
        return out - {start}

    def declaration(self, i):
        k = self.t[i][1]
        if k == "targetScope":
            return self.string(self.then({i + 1}, "="))
        if k == "import":
            if self.t[i + 1][0] == "s":
                return {i + 2}
            heads = set(self.call("alias", i + 1))
            if self.p(i + 1, "{") > 0:
                heads |= self.then(self.listed({i + 2}, "alias"), "}")
            return self.string({h + 1 for h in heads if self.word(h, "from")})
        if not self.word(i + 1):
            return set()
        j = i + 2
        if k == "metadata":
            return self.string(self.then({j}, "="))
        if k == "extension":
            ends = {j} | (set(self.call("object", j + 1)) if self.word(j, "with") else set())
            return ends | {e + 2 for e in ends if self.word(e, "as") and self.word(e + 1)}
        if k in ("param", "var", "output"):
            typed = self.call("data_type", j)
            typed = typed | self.then(typed, "?")
            if k == "param":
                return typed | self.each(self.then(typed, "="), "value")
            v = self.then(typed | ({j} if k == "var" else set()), "=")
            return self.each(v, "value") | self.each(v, "loop")
        if k == "resource":
            return self.call("resource_", i)
        if k == "module":
            return self.each(self.then({j + 1}, "="), "body") if self.t[j][0] == "s" else set()
        if k == "type":
            return self.each(self.then({j}, "="), "type_value")
        if k == "func" and self.p(j, "(") > 0:
            args = {j + 1} | self.listed({j + 1}, "argument")
            types = self.each(self.then(args, ")"), "data_type")
            return self.each(self.then(types, "=>"), "value")
        return set()

    def string(self, ends):
        return {e + 1 for e in ends if self.t[e][0] == "s"}

    def document(self):
        end, seen, todo = len(self.t) - 4, set(), {0}
        while todo:
            seen |= todo
            todo = self.each(todo, "element") - seen
        return end in seen


LIMIT = 450


def may_be(text):
    toks = lex(text)
    if toks is None or toks is False:
        return toks
    if len(toks) > LIMIT:
        return None
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 20000))
    try:
        return Reader(toks).document()
    finally:
        sys.setrecursionlimit(old)
