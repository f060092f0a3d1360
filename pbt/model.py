"""Reference model of what detox documents: filters, tables and sequences.

Everything works on bytes.  It is written from the manual pages (detox.1,
detoxrc.5, detox.tbl.5), not from the C sources, and shares nothing with them.
"""

PROTECTED = (b".", b"..")

# --------------------------------------------------------------------- tables


class Table:
    """A translation table: a finite map plus an optional default."""

    def __init__(self, rows=None, default=None):
        self.rows = dict(rows or {})
        self.default = default

    def get(self, key):
        """The replacement, or None when the character is to be left alone."""
        if key in self.rows:
            return self.rows[key]
        return self.default


def _safe_rows():
    rows = {c: b"_" for c in range(0x01, 0x20)}
    rows[0x7F] = b"_"
    for c in b" !\"$'*/:;<>?@\\`|":
        rows[c] = b"_"
    for c in b"()[]{}":
        rows[c] = b"-"
    rows[ord("&")] = b"_and_"
    return rows


def _unicode_rows():
    rows = {c: bytes([c]) for c in range(0x20, 0x7F)}
    for c in list(range(0x01, 0x20)) + [0x7F, 0x2017, 0x2044]:
        rows[c] = b"_"
    spaces = [0xA0, 0x2028, 0x2029, 0x202F, 0x205F]
    spaces += range(0x2000, 0x200B)
    spaces += range(0x202A, 0x202F)
    for c in spaces:
        rows[c] = b" "
    for c in [0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x2060]:
        rows[c] = b""
    for c in [0xAD] + list(range(0x2010, 0x2016)):
        rows[c] = b"-"
    return rows


def _iso8859_1_rows():
    rows = {c: bytes([c]).decode("latin-1").encode("utf-8") for c in range(0xA0, 0x100)}
    rows[0xA0] = b" "
    rows[0xAD] = b"-"
    return rows


def _cp1252_rows():
    rows = {}
    for c in range(0x80, 0xA0):
        try:
            rows[c] = bytes([c]).decode("cp1252").encode("utf-8")
        except UnicodeDecodeError:
            rows[c] = b"-"
    return rows


BUILTIN = {
    "safe": Table(_safe_rows()),
    "unicode": Table(_unicode_rows()),
    "iso8859_1": Table(_iso8859_1_rows(), b"_"),
    "cp1252": Table(_cp1252_rows()),
}

DEFAULT_BUILTIN = {"safe": "safe", "iso8859_1": "iso8859_1", "utf_8": "unicode"}

# -------------------------------------------------------------------- filters


def f_safe(name, table):
    out = []
    for b in name:
        rep = table.get(b)
        out.append(bytes([b]) if rep is None else rep)
    return b"".join(out)


def f_iso8859_1(name, table):
    out = []
    for b in name:
        rep = None if b < 0x80 else table.get(b)
        out.append(bytes([b]) if rep is None else rep)
    return b"".join(out)


def _width(b):
    for width, mask, bits in (
        (2, 0xE0, 0xC0),
        (3, 0xF0, 0xE0),
        (4, 0xF8, 0xF0),
        (5, 0xFC, 0xF8),
        (6, 0xFE, 0xFC),
    ):
        if b & mask == bits:
            return width
    return 1 if b < 0x80 else 0


def f_utf_8(name, table):
    out = []
    i = 0
    while i < len(name):
        width = _width(name[i])
        if width == 0:
            out.append(b"_")
            i += 1
            continue
        value = name[i] if width == 1 else name[i] & (0x7F >> width)
        j = i + 1
        while j < i + width and j < len(name) and name[j] & 0xC0 == 0x80:
            value = (value << 6) | (name[j] & 0x3F)
            j += 1
        if j < i + width:  # ended early: one replacement for what there was
            out.append(b"_")
            i = j
            continue
        rep = table.rows.get(value)
        if rep is None and value == 0:
            rep = b"_hidden_null_"
        if rep is None and value > 0x10FFFF:
            rep = b"_"
        if rep is None:
            rep = table.default
        out.append(name[i:j] if rep is None else rep)
        i = j
    return b"".join(out)


HEX = b"0123456789abcdefABCDEF"


def f_uncgi(name):
    out = bytearray()
    i = 0
    while i < len(name):
        c = name[i]
        if c == 0x25 and i + 2 < len(name) and name[i + 1] in HEX and name[i + 2] in HEX:
            value = int(name[i + 1 : i + 3], 16)
            if value == 0:
                out.append(c)
                i += 1
                continue
            out.append(value)
            i += 3
            continue
        out.append(0x20 if c == 0x2B else c)
        i += 1
    return bytes(out)


def f_wipeup(name, remove_trailing):
    name = name.lstrip(b"-_#")
    ranked = b".-_" if remove_trailing else b"-_"
    out = bytearray()
    i = 0
    while i < len(name):
        if name[i] not in ranked:
            out.append(name[i])
            i += 1
            continue
        j = i
        while j < len(name) and name[j] in ranked:
            j += 1
        run = name[i:j]
        out.append(min(run, key=ranked.index))
        i = j
    return bytes(out)


def kept_extension(name):
    """What max_length has to preserve: from the last period, or from the one
    before it when that is no more than five bytes further left."""
    last = name.rfind(b".")
    if last == -1 or last == len(name) - 1:
        return b""
    prev = name.rfind(b".", 0, last)
    if prev > 0 and last - prev <= 5:
        return name[prev:]
    return name[last:]


def f_max_length(name, limit):
    if limit == 0:
        limit = 256
    if len(name) <= limit:
        return name
    ext = kept_extension(name)
    if not ext:
        return name[:limit]
    if len(ext) >= limit:
        return name  # cannot be honoured: left alone
    return name[: limit - len(ext)] + ext


def f_lower(name):
    return bytes(b + 32 if 0x41 <= b <= 0x5A else b for b in name)


# ------------------------------------------------------------------ sequences
#
# A filter is a dict: {"f": "safe"|"iso8859_1"|"utf_8"|"uncgi"|"wipeup"|
# "max_length"|"lower", "builtin": name, "table": Table, "trailing": bool,
# "length": n}


def run_filter(flt, name):
    kind = flt["f"]
    if kind in DEFAULT_BUILTIN:
        table = flt.get("table")
        if table is None:
            table = BUILTIN[flt.get("builtin") or DEFAULT_BUILTIN[kind]]
        return {"safe": f_safe, "iso8859_1": f_iso8859_1, "utf_8": f_utf_8}[kind](name, table)
    if kind == "uncgi":
        return f_uncgi(name)
    if kind == "wipeup":
        return f_wipeup(name, bool(flt.get("trailing")))
    if kind == "max_length":
        return f_max_length(name, flt.get("length", 0))
    if kind == "lower":
        return f_lower(name)
    raise ValueError(kind)


def run_filters(filters, name):
    for flt in filters:
        name = run_filter(flt, name)
    return name


def clean(filters, name):
    """A name as a whole: '.' and '..' are never touched."""
    if name in PROTECTED:
        return name
    return run_filters(filters, name)


def valid_name(name):
    return 0 < len(name) <= 255 and b"/" not in name and b"\0" not in name and name not in PROTECTED


_SAFE = {"f": "safe", "builtin": "safe"}
_WIPE = {"f": "wipeup", "trailing": True}


def _iso(builtin):
    return {"f": "iso8859_1", "builtin": builtin}


SHIPPED = {
    "default": [_SAFE, _WIPE],
    "iso8859_1": [_iso("iso8859_1"), _SAFE, _WIPE],
    "iso8859_1-legacy": [_iso("cp1252"), _iso("iso8859_1"), _SAFE, _WIPE],
    "utf_8": [{"f": "utf_8", "builtin": "unicode"}, _SAFE, _WIPE],
    "uncgi": [{"f": "uncgi"}, _SAFE, _WIPE],
    "lower": [_SAFE, {"f": "lower"}, _WIPE],
    "iso8859_1-only": [_iso("iso8859_1")],
    "cp1252-only": [_iso("cp1252")],
    "utf_8-only": [{"f": "utf_8", "builtin": "unicode"}],
    "uncgi-only": [{"f": "uncgi"}],
    "lower-only": [{"f": "lower"}],
}
SHIPPED_IGNORE = [b"{arch}"]
