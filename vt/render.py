"""Turns token lists into text with a chosen or random layout and tracks lines."""
from .ast import WORD

BAD2 = {">=", "<=", "==", "!=", "=~", "!~", "&&", "||", "??", "=>", "::", "//", "/*", "''"}
COMMENT_TEXTS = ["", " note", " it's", " '''", " '", ' "quoted', " }", " {{{", " )](", " var x = 1", " @secure()", " ${a", " */ x",
                 " // again", " # hash", " \\", " ümlaut ✓", " resource r 'a@1' = {", " '' ' '''' ", " /* open", "\ttab", " !", " TODO: a ? b : c"]


class Style:
    def __init__(self, nl="\n", ws=0.9, wide=0.0, block=0.0, comment=0.0, blank=0.0, brk=0.0, optrun=0.5, hash=0.0,
                 final="nl", lead=0.0, indent="  ", decosame=0.0, trail=0.0):
        self.nl, self.ws, self.wide, self.block, self.comment, self.blank = nl, ws, wide, block, comment, blank
        self.brk, self.optrun, self.hash, self.final, self.lead = brk, optrun, hash, final, lead
        self.indent, self.decosame, self.trail = indent, decosame, trail


PLAIN = Style(optrun=0.7)


def wild(rng):
    return Style(nl=rng.choice(["\n", "\n", "\r\n"]), ws=rng.choice([0.0, 0.5, 1.0]), wide=rng.choice([0, 0.2]),
                 block=rng.choice([0, 0, 0.05, 0.2]), comment=rng.choice([0, 0.1, 0.5]), blank=rng.choice([0, 0.2, 0.6]),
                 brk=rng.choice([0, 0, 0.2, 0.5]), optrun=rng.choice([0, 0.5, 1]), hash=rng.choice([0, 0, 0.1]),
                 final=rng.choice(["nl", "none", "comment", "blank", "hash"]), lead=rng.choice([0, 0.5]),
                 indent=rng.choice(["", " ", "  ", "\t", "      "]), decosame=rng.choice([0, 0, 0.5]),
                 trail=rng.choice([0, 0.3]))


def _block(rng):
    c = rng.choice(COMMENT_TEXTS).replace("*/", "* /")
    if rng.random() < 0.15:
        c += "\n " + rng.choice(COMMENT_TEXTS).replace("*/", "* /")
    return "/*" + c + rng.choice(["", " ", "*", "\t"]) + "*/"


def _ws(rng, s, need):
    """inline white space, perhaps with a block comment"""
    if s.block and rng.random() < s.block:
        return " " + _block(rng) + " "
    if s.wide and rng.random() < s.wide:
        return rng.choice(["   ", "\t", " \t ", "        "])
    if need or rng.random() < s.ws:
        return " "
    return ""


def _run(rng, s, must, last=False):
    """a run of line breaks and comments with at least one line break (if must)"""
    out = []
    if s.trail and rng.random() < s.trail:
        out.append(rng.choice(["  ", "\t", " "]))
    n = 0
    while True:
        r = rng.random()
        if r < s.comment:
            out.append(rng.choice(["", " ", s.indent]) + "//" + rng.choice(COMMENT_TEXTS) + s.nl)
        elif r < s.comment + s.hash:
            out.append(" #" + rng.choice(COMMENT_TEXTS) + s.nl)
        elif s.block and rng.random() < s.block:
            out.append(" " + _block(rng) + s.nl)
        else:
            out.append(s.nl)
        n += 1
        if n > 12 or rng.random() >= s.blank:
            break
        if rng.random() < 0.3:
            out.append(rng.choice([" ", "\t", "   "]))
    return "".join(out)


def render(toks, rng, s=PLAIN):
    """-> (text, lines) with lines[i] = (first, last) line of token i."""
    parts, lines, line, prev, depth = [], [], 1, "", 0
    for i, (gap, text) in enumerate(toks):
        if i == 0:
            piece = _run(rng, s, False) if s.lead and rng.random() < s.lead else ""
        else:
            a, b = prev[-1], text[0]
            need = (a in WORD and b in WORD) or (a + b) in BAD2
            if gap == "fn":
                piece = rng.choice([" ", "  ", "\t", " \t", "\t\t "]) if s.wide and rng.random() < s.wide else ""
            elif gap == "nl":
                piece = _run(rng, s, True) + s.indent * depth
            elif gap == "decorun":
                piece = _ws(rng, s, need) if rng.random() < s.decosame else _run(rng, s, True)
            elif gap == "run" and rng.random() < s.optrun:
                piece = _run(rng, s, True) + s.indent * depth
            elif gap == "val" and s.brk and rng.random() < s.brk:
                piece = _run(rng, s, True) + s.indent * depth
            else:
                piece = _ws(rng, s, need)
        if text in ("[", "{", "("):
            depth += 1
        elif text in ("]", "}", ")"):
            depth = max(0, depth - 1)
        if piece[:1] == "/" and prev.endswith("/"):
            piece = " " + piece
        parts.append(piece)
        line += piece.count("\n")
        first = line
        parts.append(text)
        line += text.count("\n")
        lines.append((first, line))
        prev = text
    end = {"nl": s.nl, "none": "", "comment": " // end", "blank": s.nl + "  " + s.nl + "\t", "hash": " # end"}[s.final]
    parts.append(end)
    return "".join(parts), lines
