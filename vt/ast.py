"""Syntax trees of Bicep values: how they are written (emit) and how they must be
reported (exp). Nodes are tuples (kind, ...). Independent of the code under test."""
from . import tables as T


class Ref(str):
    """Expected reference (as opposed to a string literal)."""
    __slots__ = ()


class Ordered(dict):
    """Expected mapping whose keys must come in this order."""


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
OPCH = set("!?=<>&|:-+*/%~.@'")


class Emitter:
    """Collects tokens with the kind of gap in front of each.

    gaps: ws  optional inline white space / block comments
          val as ws, but a line break is accepted too when a plain value follows
          run optional run of white space, line breaks and comments
          nl  such a run with at least one line break
          fn  optional blanks only
    """

    def __init__(self, pairs=True):
        self.toks = []      # [gap, text]
        self.pending = "ws"
        self.open = []      # brackets open right now

    def gap(self, kind):
        self.pending = kind

    def t(self, text, plain=False):
        g = self.pending
        if g == "val" and not plain:
            g = "ws"
        self.toks.append((g, text))
        if text in ("(", "[", "{"):
            self.open.append(text)
        elif text in (")", "]", "}") and self.open:
            self.open.pop()
        self.pending = "ws"
        return len(self.toks) - 1

    def words(self, *texts):
        for x in texts:
            self.t(x)


POSTFIX = {"str", "ml", "int", "bool", "null", "id", "arr", "obj", "call", "paren", "idx", "facc", "bang"}


def emit(n, e, rng=None):
    """Writes n; keeps the gap pending in front of its first token."""
    k = n[0]
    if k == "str":
        e.t("'" + n[1] + "'", True)
    elif k == "ml":
        e.t("'''" + n[1] + "'''")
    elif k == "int":
        e.t(n[2] if len(n) > 2 else str(n[1]), True)
    elif k == "bool":
        e.t("true" if n[1] else "false", True)
    elif k == "null":
        e.t("null", True)
    elif k == "id":
        e.t(n[1], True)
    elif k == "arr":
        # n = ('arr', items, seps) ; seps[i] is the separator before item i+1: ',' or 'nl'
        items, seps = n[1], n[2]
        e.t("[")
        e.gap("run")
        for i, it in enumerate(items):
            if i:
                if seps[i - 1] == ",":
                    e.t(",")
                    e.gap("val")
                else:
                    e.gap("nl")
            emit(it, e)
        e.gap("run")
        e.t("]")
    elif k == "obj":
        # n = ('obj', entries, seps); entry = ('pair', keytext, value, nullable) | ('child', Resource)
        e.t("{")
        e.gap("run")
        for i, en in enumerate(n[1]):
            if i:
                if n[2][i - 1] == ",":
                    e.t(",")
                else:
                    e.gap("nl")
            if en[0] == "pair":
                e.t(en[1])
                e.t(":")
                e.gap("val")
                emit(en[2], e)
                if en[3]:
                    e.t("?")
            else:
                en[1].emit(e)
        e.gap("run")
        e.t("}")
    elif k == "call":
        # ('call', name, ns, args)
        e.t((n[2] + "." if n[2] else "") + n[1], True)
        e.gap("fn")
        e.t("(")
        e.gap("run")
        for i, a in enumerate(n[3]):
            if i:
                e.t(",")
                e.gap("run")
            emit(a, e)
        e.gap("run")
        e.t(")")
    elif k == "paren":
        e.t("(")
        e.gap("val")
        emit(n[1], e)
        e.t(")")
    elif k == "un":
        e.t(n[1])
        e.gap("val")
        emit(n[2], e)
    elif k == "bin":
        emit(n[2], e)
        if n[1] == ".?":
            e.t(".")
            e.t("?")
        else:
            e.t(n[1])
        e.gap("val")
        emit(n[3], e)
    elif k == "cond":
        emit(n[1], e)
        e.t("?")
        # directly inside an object a line break makes the mark a nullable one (known finding)
        e.gap("ws" if e.open and e.open[-1] == "{" else "val")
        emit(n[2], e)
        e.t(":")
        e.gap("val")
        emit(n[3], e)
    elif k == "idx":
        # ('idx', base, index, safe)
        emit(n[1], e)
        e.t("[")
        if n[3]:
            e.t("?")
        e.gap("ws")
        emit(n[2], e)
        e.t("]")
    elif k == "facc":
        # ('facc', base, name, args)
        emit(n[1], e)
        e.t(".")
        e.t(n[2])
        e.gap("fn")
        e.t("(")
        e.gap("val")
        for i, a in enumerate(n[3]):
            if i:
                e.t(",")
                e.gap("val")
            emit(a, e)
        e.t(")")
    elif k == "bang":
        emit(n[1], e)
        e.t("!")
    elif k == "lam":
        # ('lam', params, parens, body)
        if n[2]:
            e.t("(")
            for i, p in enumerate(n[1]):
                if i:
                    e.t(",")
                e.t(p)
            e.t(")")
        else:
            e.t(n[1][0])
        e.t("=>")
        e.gap("val")
        emit(n[3], e)
    elif k == "loop":
        # ('loop', item, index|None, coll, cond|None, body)
        e.t("[")
        e.gap("run")
        e.t("for")
        if n[2] is None:
            e.t(n[1])
        else:
            e.t("(")
            e.t(n[1])
            e.t(",")
            e.t(n[2])
            e.t(")")
        e.t("in")
        e.gap("val")
        emit(n[3], e)
        e.t(":")
        if n[4] is not None:
            e.t("if")
            e.gap("fn")
            e.t("(")
            e.gap("val")
            emit(n[4], e)
            e.t(")")
            e.gap("ws")
        else:
            e.gap("val")
        emit(n[5], e)
        e.gap("run")
        e.t("]")
    elif k == "deploy":
        # ('deploy', cond, body)
        e.gap("run" if e.pending == "ws" else e.pending)
        e.t("if")
        e.t("(")
        e.gap("val")
        emit(n[1], e)
        e.t(")")
        emit(n[2], e)
    elif k == "raw":
        # malformed text, token by token; never reported
        e.words(*n[1])
    else:
        raise AssertionError(k)


def strip(n):
    while n[0] in ("paren", "bang"):
        n = n[1]
    return n


def ml_content(raw):
    return raw[2:] if raw.startswith("\r\n") else raw[1:] if raw.startswith("\n") else raw


def exp(n):
    k = n[0]
    if k == "str":
        return n[1]
    if k == "ml":
        return ml_content(n[1])
    if k in ("int", "bool"):
        return n[1]
    if k == "null":
        return None
    if k == "id":
        return Ref(n[1])
    if k == "arr":
        return [exp(i) for i in n[1]]
    if k == "obj":
        return Ordered((en[1], exp(en[2])) for en in n[1] if en[0] == "pair")
    if k == "call":
        return {"function": T.call(n[1], n[2], [exp(a) for a in n[3]])}
    if k in ("paren", "bang"):
        return exp(n[1])
    if k == "un":
        typ, field = T.UNOPS[n[1]]
        return {"operator": {"type": typ, "operands": {field: exp(n[2])}}}
    if k == "bin":
        typ = T.BINOPS.get(n[1]) or T.ACCOPS[n[1]]
        return {"operator": {"type": typ, "operands": {"operand_1": exp(n[2]), "operand_2": exp(n[3])}}}
    if k == "cond":
        return {"operator": {"type": "conditional", "operands": {
            "condition": exp(n[1]), "true_value": exp(n[2]), "false_value": exp(n[3])}}}
    if k == "idx":
        return {"operator": {"type": "index_accessor", "operands": {"operand_1": exp(n[1]), "operand_2": exp(n[2])}}}
    if k == "facc":
        ops = {"operand_1": exp(n[1]), "func_name": n[2]}
        ops.update({f"operand_{i + 2}": exp(a) for i, a in enumerate(n[3])})
        return {"operator": {"type": "function_accessor", "operands": ops}}
    if k == "lam":
        d = {f"var_{i + 1}": p for i, p in enumerate(n[1])}
        d["expression"] = exp(n[3])
        return {"type": "lambda_expression", "detail": d}
    if k == "loop":
        if n[2] is None:
            lt = {"type": "array", "detail": {"item_name": n[1], "array_name": exp(n[3])}}
        else:
            lt = {"type": "array_index", "detail": {"item_name": n[1], "index_name": n[2], "array_name": exp(n[3])}}
        return {"loop_type": lt, "condition": None if n[4] is None else exp(n[4]), "config": exp(n[5])}
    if k == "deploy":
        return {"condition": exp(n[1]), "config": exp(n[2])}
    raise AssertionError(k)


def children(n):
    """Children of an obj node that are nested resources."""
    while n[0] in ("loop", "deploy"):
        n = n[5] if n[0] == "loop" else n[2]
    return [en[1] for en in n[1] if en[0] == "child"] if n[0] == "obj" else []


# --- data types -------------------------------------------------------------
def emit_type(t, e):
    # ('name', x) | ('array', t) | ('union', [t..])
    if t[0] == "name":
        e.t(t[1])
    elif t[0] == "array":
        emit_type(t[1], e)
        e.t("[")
        e.t("]")
    else:
        e.t("(")
        for i, m in enumerate(t[1]):
            if i:
                e.t("|")
            emit_type(m, e)
        e.t(")")


def exp_type(t):
    if t[0] == "name":
        return t[1]
    if t[0] == "array":
        return {"type": "array", "item_type": exp_type(t[1])}
    return {"type": "union", "members": [exp_type(m) for m in t[1]]}


# --- declarations -----------------------------------------------------------
class Decl:
    section = None
    decorators = ()
    name = None

    def emit(self, e):
        start = len(e.toks)
        for d in self.decorators:
            d.emit(e)
        self.body(e)
        self.span = (start, len(e.toks) - 1)

    def deco_exp(self):
        return [d.exp() for d in self.decorators]

    def entries(self):
        """[(section, name, attributes, span)]"""
        return [(self.section, self.name, self.attrs(), self.span)]


class Deco:
    def __init__(self, name, ns=False, arg=None):
        self.name, self.ns, self.arg = name, ns, arg

    def emit(self, e):
        e.t("@")
        e.t(("sys." if self.ns else "") + self.name)
        e.t("(")
        e.gap("run")
        if self.arg is not None:
            emit(self.arg, e)
        e.gap("run")
        e.t(")")
        e.gap("decorun")

    def exp(self):
        if self.name in T.DECOS:
            typ, takes = T.DECOS[self.name]
            if not takes:
                return {"type": typ}
        else:
            typ = ("sys." if self.ns else "") + self.name
            if self.arg is None:
                return {"type": typ}
        a = self.arg
        if self.name in ("minValue", "maxValue"):
            b = strip(a)
            if b[0] == "un" and b[1] == "-" and strip(b[2])[0] == "int":
                return {"type": typ, "argument": -strip(b[2])[1]}
        return {"type": typ, "argument": exp(a)}


class Scope(Decl):
    section, kind = "globals", "scope"
    name = "scope"

    def __init__(self, value):
        self.value = value

    def body(self, e):
        e.t("targetScope")
        e.t("=")
        e.t("'" + self.value + "'")

    def attrs(self):
        return {"value": self.value}


class Import(Decl):
    section, kind = "imports", "import"

    def __init__(self, items, path, braces=True):
        # items [(name, alias|None)] or None for a namespace import
        self.items, self.path, self.braces = items, path, braces
        self.name = path if items is None else items[0][0]

    def body(self, e):
        e.t("import")
        if self.items is None:
            e.t("'" + self.path + "'")
            return
        if self.braces:
            e.t("{")
        for i, (n, a) in enumerate(self.items):
            if i:
                e.t(",")
            e.t(n)
            if a:
                e.t("as")
                e.t(a)
        if self.braces:
            e.t("}")
        e.t("from")
        e.t("'" + self.path + "'")

    def entries(self):
        if self.items is None:
            return [("imports", self.path, {}, self.span)]
        return [("imports", n, {"file_path": self.path, **({"alias": a} if a else {})}, self.span)
                for n, a in self.items]


class Extension(Decl):
    section, kind = "extensions", "extension"

    def __init__(self, name, config=None, alias=None):
        self.name, self.config, self.alias = name, config, alias

    def body(self, e):
        e.t("extension")
        e.t(self.name)
        if self.config is not None:
            e.t("with")
            emit(self.config, e)
        if self.alias:
            e.t("as")
            e.t(self.alias)

    def attrs(self):
        r = {}
        if self.config is not None and exp(self.config):
            r["config"] = exp(self.config)
        if self.alias:
            r["alias"] = self.alias
        return r


class Metadata(Decl):
    section, kind = "metadata", "metadata"

    def __init__(self, name, raw):
        self.name, self.raw = name, raw

    def body(self, e):
        e.t("metadata")
        e.t(self.name)
        e.t("=")
        e.t("'" + self.raw + "'")

    def attrs(self):
        return {"value": self.raw}


class Param(Decl):
    section, kind = "parameters", "param"

    def __init__(self, name, typ, default=None, nullable=False, decorators=()):
        self.name, self.typ, self.default, self.nullable, self.decorators = name, typ, default, nullable, decorators

    def body(self, e):
        e.t("param")
        e.t(self.name)
        emit_type(self.typ, e)
        if self.nullable:
            e.t("?")
        if self.default is not None:
            e.t("=")
            e.gap("val")
            emit(self.default, e)

    def attrs(self):
        return {"decorators": self.deco_exp(), "type": exp_type(self.typ),
                "default": None if self.default is None else exp(self.default)}


class Var(Decl):
    section, kind = "variables", "var"

    def __init__(self, name, value, typ=None, nullable=False, decorators=()):
        self.name, self.value, self.typ, self.nullable, self.decorators = name, value, typ, nullable, decorators

    def body(self, e):
        e.t("var")
        e.t(self.name)
        if self.typ is not None:
            emit_type(self.typ, e)
            if self.nullable:
                e.t("?")
        e.t("=")
        e.gap("val")
        emit(self.value, e)

    def attrs(self):
        r = {"decorators": self.deco_exp(), "value": exp(self.value)}
        if self.typ is not None:
            r["type"] = exp_type(self.typ)
        return r


class Output(Decl):
    section, kind = "outputs", "output"

    def __init__(self, name, typ, value, nullable=False, decorators=()):
        self.name, self.typ, self.value, self.nullable, self.decorators = name, typ, value, nullable, decorators

    def body(self, e):
        e.t("output")
        e.t(self.name)
        emit_type(self.typ, e)
        if self.nullable:
            e.t("?")
        e.t("=")
        e.gap("val")
        emit(self.value, e)

    def attrs(self):
        return {"decorators": self.deco_exp(), "type": exp_type(self.typ), "value": exp(self.value)}


class Resource(Decl):
    section, kind = "resources", "resource"

    def __init__(self, name, typ, version, config, existing=False, decorators=(), nested=False):
        self.name, self.typ, self.version, self.config = name, typ, version, config
        self.existing, self.decorators, self.nested = existing, decorators, nested

    def body(self, e):
        e.t("resource")
        e.t(self.name)
        e.t("'" + self.typ + ("@" + self.version if self.version is not None else "") + "'")
        if self.existing:
            e.t("existing")
        e.t("=")
        emit(self.config, e)

    def entries(self, parent=None):
        # parent: (reported name, reported type, version)
        name = self.name if parent is None else f"{parent[0]}__{self.name}"
        typ = self.typ if parent is None else f"{parent[1]}/{self.typ}"
        version = self.version if self.version is not None else parent[2]
        config = exp(self.config)
        if parent is not None:
            # dependencies of its own stay in front
            own = config["depends_on"] if isinstance(config.get("depends_on"), list) else []
            config = type(config)({**config, "depends_on": [*own, Ref(parent[0])]})
        r = [("resources", name, {"decorators": self.deco_exp(), "type": typ, "api_version": version,
                                  "existing": self.existing, "config": config}, self.span)]
        for c in children(self.config):
            r += c.entries((name, typ, version))
        return r


class Module(Decl):
    section, kind = "modules", "module"

    def __init__(self, name, ref, config, decorators=()):
        # ref: (text, type, detail)
        self.name, self.ref, self.config, self.decorators = name, ref, config, decorators

    def body(self, e):
        e.t("module")
        e.t(self.name)
        e.t("'" + self.ref[0] + "'")
        e.t("=")
        emit(self.config, e)

    def attrs(self):
        return {"decorators": self.deco_exp(), "type": self.ref[1], "detail": self.ref[2], "config": exp(self.config)}


class TypeDecl(Decl):
    section, kind = "types", "type"

    def __init__(self, name, members, decorators=()):
        self.name, self.members, self.decorators = name, members, decorators

    def body(self, e):
        e.t("type")
        e.t(self.name)
        e.t("=")
        e.gap("val")
        for i, m in enumerate(self.members):
            if i:
                e.t("|")
                e.gap("val")
            emit(m, e)

    def attrs(self):
        if len(self.members) == 1:
            v = exp(self.members[0])
        else:
            v = " | ".join(str(exp(m)) for m in self.members)
        return {"decorators": self.deco_exp(), "value": v}


class Func(Decl):
    section, kind = "functions", "func"

    def __init__(self, name, args, typ, expr, decorators=()):
        self.name, self.args, self.typ, self.expr, self.decorators = name, args, typ, expr, decorators

    def body(self, e):
        e.t("func")
        e.t(self.name)
        e.t("(")
        for i, (n, t) in enumerate(self.args):
            if i:
                e.t(",")
            e.t(n)
            emit_type(t, e)
        e.t(")")
        emit_type(self.typ, e)
        e.t("=>")
        e.gap("val")
        emit(self.expr, e)

    def attrs(self):
        return {"decorators": self.deco_exp(), "args": Ordered((n, exp_type(t)) for n, t in self.args),
                "type": exp_type(self.typ), "expression": exp(self.expr)}


SECTION_KINDS = [Scope, Import, Extension, Metadata, Param, Var, Output, Resource, Module, TypeDecl, Func]


class Doc:
    def __init__(self, decls):
        self.decls = decls

    def tokens(self):
        e = Emitter()
        e.gap("run")
        for i, d in enumerate(self.decls):
            if i:
                e.gap("nl")
            d.emit(e)
        return e.toks

    def entries(self):
        return [x for d in self.decls for x in d.entries()]

    def expected(self, lines=None):
        """Expected result; lines: list of (first, last) line per token when line numbers are on."""
        res = {"globals": {"scope": {"value": "resourceGroup"}}}
        if lines is not None:
            res["globals"]["scope"].update(__start_line__=0, __end_line__=0)
        for sec, name, attrs, span in self.entries():
            attrs = dict(attrs)
            if lines is not None:
                attrs["__start_line__"] = lines[span[0]][0]
                attrs["__end_line__"] = lines[span[1]][1]
            res.setdefault(sec, {})[name] = attrs
        return res
