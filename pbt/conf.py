"""Translation tables and config files: strategies, text forms, meaning."""

from hypothesis import strategies as st

from . import gen

from . import model
from .names import B, S, byte_text

# ------------------------------------------------------------------------ tables
#
# {"rows": [[key, replacement], ...], "default": None or text, "form": n}
# later rows for the same key win.

REPL = ["_", "-", "", "x", "ab", "_and_", "__", "long_replacement_text", " ", ".", "#", "%41", "\xc3\xa9", "\xe2\x82\xac", "A", "Zz", "'", '"', "\\", "\xff", "\x80"]


def replacement():
    return gen.one_of(st.sampled_from(REPL), st.sampled_from(REPL),
                     byte_text(0, 5).map(lambda t: t.replace("\0", "").replace("\n", "").replace("/", "")))


def fixable(text):
    """A replacement that has a written form: not both kinds of quotes."""
    if '"' in text and "'" in text:
        text = text.replace("'", "")
    return text


def table(keys, max_rows=12, default=None):
    keys = st.sampled_from(list(keys)) if isinstance(keys, (list, tuple, range)) else keys
    rows = st.lists(st.tuples(keys, replacement().map(fixable)).map(list), max_size=max_rows)
    dflt = default if default is not None else gen.one_of(st.none(), st.none(), st.sampled_from(["_", "-", "?", "dflt", "\xc2\xbf", "longer_default_text"]))
    return st.fixed_dictionaries({"rows": rows, "default": dflt, "form": st.integers(0, 1 << 30)})


ASCII_KEYS = list(range(1, 0x2E)) + list(range(0x30, 0x80))  # neither '.' nor '/'
HIGH_KEYS = list(range(0x80, 0x100))
SAFE_KEYS = ASCII_KEYS * 2 + HIGH_KEYS


def uni_keys():
    return gen.one_of(
        st.sampled_from([k for k in ASCII_KEYS if k != 10]),
        st.integers(0x80, 0x7FF), st.integers(0x800, 0xFFFF), st.integers(0x10000, 0x10FFFF),
        st.sampled_from([0xE9, 0x20AC, 0x1F600, 0xA0, 0x2028, 0x4E2D, 0x10FFFF, 0x80, 0x7FF, 0x800, 0xFFFD, 0x10000]))


def table_model(spec):
    d = spec["default"]
    return model.Table({k: B(v) for k, v in spec["rows"]}, None if d in (None, "") else B(d))


class Dice:
    """Small deterministic choices derived from a number in the case."""

    def __init__(self, n):
        self.n = n * 2 + 1

    def __call__(self, k):
        self.n = (self.n * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.n >> 33) % k


WS = set(" \t\n\v\f\r")


def quote(text, dice):
    plain = bool(text) and not (set(text) & WS) and text[0] not in "\"'" and not any(ord(c) in (0x85, 0xA0) for c in text)
    forms = []
    if plain:
        forms += ["", ""]
    if '"' not in text:
        forms.append('"')
    if "'" not in text:
        forms.append("'")
    q = forms[dice(len(forms))]
    return q + text + q, bool(q)


def number(key, dice):
    k = dice(5)
    if k == 0:
        return "%d" % key
    if k == 1:
        return "0x%x" % key
    if k == 2:
        return "0X%04X" % key
    if k == 3:
        return "0%o" % key
    return "0x%04x" % key


def row_text(key, repl, dice):
    q, quoted = quote(repl, dice)
    lead = ["", "", " ", "\t"][dice(4)]
    gap = [" ", "\t", "\t\t", "  ", " \f", "\v"][dice(6)]
    tail = ["", "", " ", "\t# comment", "  # \"quoted\" 'comment'", "\t\t# end", "\t"][dice(7)]
    if tail == "\t" and dice(3) == 0:
        tail += long_comment(dice)
    return lead + number(key, dice) + gap + q + tail


NOISE = ["# comment", "", "#0x41 zzz", "   ", "\t", "# start", "# end", "#"]


def long_comment(dice):
    """A comment longer than whatever a reader may take at once; its parts look
    like lines that mean something."""
    out = "# "
    for _ in range(1 + dice(3)):
        at = [1022, 1023, 1024, 255, 511, 2047, 4095, 99, 600][dice(9)] + dice(5) - 2 - dice(2) * 8
        out = out.ljust((len(out) // 1023) * 1023 + at, "x ."[dice(3)])
        out += ["0x61 Zap", "97 'Zap'", "end", "0x24 \"Zap\"", "start", "default Zap", "\tend ", "#", "\"", " 0x20 Zap", "start en_US"][dice(11)]
    return out


def noise_line(dice):
    return long_comment(dice) if dice(12) == 0 else NOISE[dice(len(NOISE))]


def table_text(spec):
    """One of the many ways to write a table down."""
    dice = Dice(spec["form"])
    out = []

    def noise():
        while dice(4) == 0:
            out.append(noise_line(dice))

    def default():
        d = spec["default"]
        if d is None:
            k = dice(4)
            if k == 0:
                out.append("default")
            elif k == 1:
                out.append("default\t")
        elif d == "":
            out.append(["default \"\"", "default ''"][dice(2)])
        else:
            out.append(["default", "DEFAULT", " default"][dice(3)] + [" ", "\t\t"][dice(2)] + quote(d, dice)[0] + ["", " ", "  # why"][dice(3)])

    late = dice(3) == 0
    noise()
    if not late:
        default()
    noise()
    rows = list(spec["rows"])
    blocks = 1 + (dice(3) == 0 and len(rows) > 1)
    cut = len(rows) // 2 if blocks == 2 else len(rows)
    for part in ([rows[:cut], rows[cut:]] if blocks == 2 else [rows]):
        out.append(["start", "start ", "Start", " start", "START\t"][dice(5)])
        for key, repl in part:
            noise()
            out.append(row_text(key, repl, dice))
        noise()
        out.append(["end", "end ", "End", "\tend"][dice(4)])
        noise()
    if late:
        default()
    nl = "\r\n" if dice(8) == 0 else "\n"
    text = nl.join(out)
    if dice(4) != 0:
        text += nl
    return B(text)


# ------------------------------------------------------------------------ configs
#
# A sequence: {"name": text, "filters": [filter]}, where a filter is a model
# filter whose "table" is a table spec, stored in a file of its own.


def flt(custom_tables=True, kinds=None):
    simple = [st.just({"f": "uncgi"}), st.just({"f": "lower"}),
              st.fixed_dictionaries({"f": st.just("wipeup"), "trailing": st.booleans()}),
              st.fixed_dictionaries({"f": st.just("max_length"), "length": gen.one_of(st.just(0), st.integers(1, 40), st.integers(1, 300))})]
    tabled = []
    for kind, keys, builtins in (("safe", SAFE_KEYS, ["safe"]), ("iso8859_1", HIGH_KEYS, ["iso8859_1", "cp1252"]),
                                 ("utf_8", uni_keys(), ["unicode"])):
        forms = [st.just({"f": kind})]
        forms.append(st.sampled_from(builtins).map(lambda b, kind=kind: {"f": kind, "builtin": b}))
        if custom_tables:
            forms.append(table(keys).map(lambda t, kind=kind: {"f": kind, "table": t}))
        tabled.append(gen.one_of(forms))
    named = dict(zip(["uncgi", "lower", "wipeup", "max_length", "safe", "iso8859_1", "utf_8"], simple + tabled))
    return gen.one_of([named[k] for k in (kinds or named)])


def as_model(filters):
    out = []
    for f in filters:
        f = dict(f)
        if isinstance(f.get("table"), dict):
            f["table"] = table_model(f["table"])
        out.append(f)
    return out


KEYWORDS = {"builtin", "filename", "ignore", "iso8859_1", "length", "lower", "max_length", "remove_trailing", "safe", "sequence", "uncgi", "utf_8", "wipeup"}
ID0 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ID1 = ID0 + "0123456789_"


def tame(filters, limit=3000):
    """The filters up to where names could grow without measure."""
    out, factor = [], 1
    for f in filters:
        t = f.get("table")
        grow = 1
        if isinstance(t, dict):
            grow = max([len(r[1]) for r in t["rows"]] + [len(t["default"] or ""), 1])
        elif f["f"] in ("safe", "utf_8", "iso8859_1"):
            grow = 5
        factor *= grow
        if factor > limit and out:
            break
        out.append(f)
    return out


def filter_list(max_size, **more):
    return st.lists(flt(**more), min_size=1, max_size=max_size).map(tame)


def is_id(text):
    return bool(text) and text[0] in ID0 and all(c in ID1 for c in text) and text.lower() not in KEYWORDS


class Writer:
    """Writes a config file in varying but equivalent ways."""

    def __init__(self, form):
        self.dice = Dice(form)
        self.out = []

    def gap(self, need=False):
        d = self.dice
        k = d(8)
        if k == 0:
            self.out.append("\n# note { ; } \"\n")
        elif k == 1:
            self.out.append("\n\t")
        elif k == 2:
            self.out.append("  ")
        elif need or k == 3:
            self.out.append(" ")

    def word(self, text):
        self.gap(True)
        k = self.dice(6)
        self.out.append(text.upper() if k == 0 else text.capitalize() if k == 1 else text)

    def sym(self, text):
        self.gap()
        self.out.append(text)

    def string(self, text):
        self.gap(True)
        if is_id(text) and self.dice(2):
            self.out.append(text)
        else:
            self.out.append('"' + text + '"')

    def text(self):
        return B("".join(self.out) + ["", "\n", "", "\n", "# end", "\n#", " \t", "\n\n"][self.dice(8)])


def write_filter(w, f, table_path):
    w.word(f["f"])
    kind = f["f"]
    if kind in model.DEFAULT_BUILTIN:
        if "table" in f:
            w.sym("{"), w.word("filename"), w.string(table_path(f["table"])), w.sym(";"), w.sym("}")
        elif "builtin" in f:
            w.sym("{"), w.word("builtin"), w.string(f["builtin"]), w.sym(";"), w.sym("}")
        elif w.dice(2):
            w.sym("{"), w.sym("}")
    elif kind == "wipeup":
        if f.get("trailing"):
            w.sym("{"), w.word("remove_trailing"), w.sym(";"), w.sym("}")
        elif w.dice(2):
            w.sym("{"), w.sym("}")
    elif kind == "max_length":
        if f.get("length"):
            w.sym("{"), w.word("length"), w.gap(True), w.out.append("%d" % f["length"]), w.sym(";"), w.sym("}")
        elif w.dice(2):
            w.sym("{"), w.sym("}")
    w.sym(";")


def config_text(items, form, table_path):
    """items: {"seq": name, "filters": [...]} or {"ignore": [names]}."""
    w = Writer(form)
    for it in items:
        if "seq" in it:
            w.word("sequence"), w.string(it["seq"]), w.sym("{")
            for f in it["filters"]:
                write_filter(w, f, table_path)
            w.sym("}"), w.sym(";")
        else:
            w.word("ignore"), w.sym("{")
            for n in it["ignore"]:
                w.word("filename"), w.string(n), w.sym(";")
            w.sym("}"), w.sym(";")
    return w.text()


class Tables:
    """Stores the tables of a case as files below a folder."""

    def __init__(self, folder):
        self.folder = folder
        self.n = 0

    def __call__(self, spec):
        import os

        self.n += 1
        name = ["t%d.tbl", "tab%d/table", "t%d.tbl", "tab%d/table", "t b/%d/x.tbl"][spec["form"] % 5] % self.n
        os.makedirs(os.path.dirname(os.path.join(self.folder, B(name))), exist_ok=True)
        with open(os.path.join(self.folder, B(name)), "wb") as f:
            f.write(table_text(spec))
        return S(self.folder) + "/" + name


def write_config(folder, name, items, form):
    import os

    path = os.path.join(folder, B(name))
    with open(path, "wb") as f:
        f.write(config_text(items, form, Tables(folder)))
    return path
