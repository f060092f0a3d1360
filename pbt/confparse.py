"""A reader for config files, written from detoxrc(5), to judge files that may
be wrong.  parse() gives the items, or raises Bad with the line to blame."""

import re

KEYWORDS = [b"builtin", b"filename", b"ignore", b"iso8859_1", b"length", b"lower", b"max_length", b"remove_trailing", b"safe", b"sequence", b"uncgi", b"utf_8", b"wipeup"]
TOKEN = re.compile(rb'[\t ]+|#[^\n]*|\n|"[^"\n]*"|"[^"\n]*\n|[a-zA-Z][a-zA-Z0-9_]*|[0-9]+|[{};]|.', re.S)


class Bad(Exception):
    def __init__(self, line, why):
        super().__init__("line %d: %s" % (line, why))
        self.line = line


class Unclear(Exception):
    """The manual does not say what this means."""


def tokens(data):
    """[(kind, value, line)], ending with ("eof", ...)."""
    out = []
    line = 1
    for m in TOKEN.finditer(data):
        t = m.group()
        c = t[:1]
        if c in b"\t #":
            continue
        if t == b"\n":
            line += 1
        elif c == b'"':
            if len(t) < 2 or t[-1:] != b'"':
                if not t.endswith(b"\n"):
                    out.append(("odd", t, line))  # a quote that nothing closes, at the end
                else:
                    out.append(("open", t, line))
                    line += 1
            elif b"\0" in t:
                out.append(("odd", t, line))
            else:
                out.append(("string", t[1:-1], line))
        elif t in (b"{", b"}", b";"):
            out.append((t.decode(), t, line))
        elif c.isdigit():
            out.append(("number", int(t), line))
        elif t.lower() in KEYWORDS:
            out.append((t.lower().decode(), t, line))
        elif re.match(rb"[a-zA-Z]", t):
            out.append(("id", t, line))
        else:
            out.append(("odd", t, line))
    out.append(("eof", b"", line))
    return out


TABLED = ("safe", "iso8859_1", "utf_8")
FILTERS = TABLED + ("uncgi", "lower", "wipeup", "max_length")


class Parser:
    def __init__(self, data):
        self.toks = tokens(data)
        self.i = 0

    def peek(self):
        k, _, line = self.toks[self.i]
        if k == "odd":
            raise Unclear("line %d" % line)
        if k == "open":
            raise Bad(line, "a string is not closed")
        return k

    def take(self, *kinds):
        k = self.peek()
        _, v, line = self.toks[self.i]
        if k not in kinds:
            raise Bad(line, "%s instead of %s" % (k, "/".join(kinds)))
        self.i += 1
        return k, v

    def text(self):
        return self.take("string", "id")[1].decode("latin-1")

    def filter(self):
        kind, _ = self.take(*FILTERS)
        f = {"f": kind}
        if kind in ("uncgi", "lower"):
            self.take(";")
            return f
        k, _ = self.take("{", ";")
        if k == ";":
            return f
        inner = {"wipeup": ("remove_trailing",), "max_length": ("length",)}.get(kind, ("filename", "builtin"))
        k, _ = self.take(*inner + ("}",))
        if k != "}":
            if k == "remove_trailing":
                f["trailing"] = True
            elif k == "length":
                f["length"] = self.take("number")[1]
            elif k == "filename":
                f["path"] = f["table"] = self.text()
            else:
                f["builtin"] = self.text()
            self.take(";")
            self.take("}")
        self.take(";")
        return f

    def items(self):
        out = []
        while True:
            k, _ = self.take("sequence", "ignore", "eof")
            if k == "eof":
                return out
            if k == "sequence":
                name = self.text()
                self.take("{")
                filters = [self.filter()]
                while self.peek() != "}":
                    filters.append(self.filter())
                out.append({"seq": name, "filters": filters})
            else:
                self.take("{")
                ignored = []
                while not ignored or self.peek() != "}":
                    self.take("filename")
                    ignored.append(self.text())
                    self.take(";")
                out.append({"ignore": ignored})
            self.take("}")
            self.take(";")


def parse(data):
    return Parser(data).items()
