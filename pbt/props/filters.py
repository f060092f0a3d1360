"""Checks of the filters as functions from strings to strings."""

import os
import subprocess

from hypothesis import strategies as st

from .. import gen

from .. import conf, model, names, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S
from ..stream import ROUTES, custom_opts, dense, files, inline, lines_of, prepare_shipped, route_opts, words


class Filter(Prop):
    """A case is {"lines": [...], ...}; most go through inline mode as a
    batch, some become file names."""

    quick, thorough = 900, 12000

    def prepare(self, env):
        prepare_shipped(env)

    def check(self, env, case, opts, want_of, envv=None):
        w = os.fsencode(os.path.join(env.home, "case"))
        given = [B(t) for t in case["lines"]]
        want = [g if g in model.PROTECTED else want_of(g) for g in given]
        if case.get("how") == "files":
            short = [(g, e) for g, e in zip(given, want) if len(g) <= 255 and len(e) <= 255 and g not in model.PROTECTED]
            files(env, w, opts, [g for g, _ in short], [e for _, e in short], envv, case.get("kinds", "f"))
        else:
            inline(env, w, opts, given, want, envv, program="detox" if case.get("how") == "--inline" else "inline-detox")
        return given, want


HOW = st.sampled_from(["inline"] * 5 + ["--inline", "files"])


class C08(Filter):
    id = "C08"
    rule = ("Batches of byte strings over the safe filter's characters, runs of . - _ #, CGI and UTF-8 material and random bytes, cleaned with the "
            "default sequence in inline mode or as file names, with the builtin configuration, the shipped config file, and the shipped table files; all "
            "256 byte values in context and all short strings over . - _ # a are enumerated. Oracle: the documented mapping, plus the shape of the "
            "result. Non-trivial: a case in which some string changed.")
    ALPHA = list(names.SAFE_SPECIALS) * 2 + names.RUNS + ["/", "a", "Z", "0", "~", "%", "+", "=", ",", "^"] + names.CTRL + names.UTF8[:6] + names.HIGH[:6]

    def strategy(self, env):
        return st.fixed_dictionaries({"lines": lines_of(gen.one_of(words(self.ALPHA), dense([".", "-", "_", "#", "a", " ", "("]), names.raw_name())),
                                      "route": st.sampled_from(ROUTES), "how": HOW})

    def fixed(self, env):
        every = [p % chr(c) for c in range(1, 256) if c != 10 for p in ("%s", "a%sb", "%sa", "a%s", "_%s_", "a%s%s".replace("%s%s", "%s") + ".", "..%s")]
        short = [t for t in stream.all_strings(".-_#a", 5) if t]
        out = [{"lines": x, "route": r, "how": h} for x in stream.chunks(every, 600) for r in ROUTES[1:] for h in ("inline", "files")]
        out += [{"lines": x, "route": "builtin", "how": "inline"} for x in stream.chunks(short, 1000)]
        out += [{"lines": ["a\nb", "\n", "\n\n", "x\n", "\ny", "a\n\n-b"], "route": r, "how": "files"} for r in ROUTES[1:]]
        return out

    def run(self, env, case):
        w = env.fresh()
        opts = route_opts(env, w, "default", case["route"])

        def want(g):
            out = model.run_filters(model.SHIPPED["default"], g)
            # the statement's second sentence, independently of the model
            for a, b in zip(out, out[1:]):
                if a in b".-_" and b in b".-_":
                    raise AssertionError(out)
            if out[:1] in (b"-", b"_", b"#"):
                raise AssertionError(out)
            if any(c < 0x20 or c == 0x7F or c in b" !\"$'*/:;<>?@\\`|()[]{}&" for c in out):
                raise AssertionError(out)
            return out

        given, wanted = self.check(env, case, opts, want)
        n = sum(a != b for a, b in zip(given, wanted))
        return Outcome(n > 0, [case["route"], case["how"]])


TABLED = [("safe", ["safe"]), ("iso8859_1", ["iso8859_1", "cp1252"]), ("utf_8", ["unicode"])]
BYTES = list(range(1, 0x100))


def utf8(cp):
    if cp < 0x80:
        return chr(cp)
    if cp < 0x800:
        b = [0xC0 | cp >> 6, 0x80 | cp & 63]
    elif cp < 0x10000:
        b = [0xE0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]
    else:
        b = [0xF0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]
    return "".join(map(chr, b))


@st.composite
def colliding_keys(draw, top=0x10FFFF):
    """Codes that share a slot in a table of 500 rows, and others."""
    base = draw(st.integers(1, 499))
    return [k for k in {base + 500 * draw(st.integers(0, top // 500)) for _ in range(draw(st.integers(1, 5)))} if 0 < k <= top]


@st.composite
def table_spec(draw, kind, max_rows=14):
    if kind == "safe":
        keys = draw(st.lists(st.sampled_from(BYTES), max_size=max_rows))
        if draw(st.booleans()):
            keys += draw(colliding_keys())
    elif kind == "iso8859_1":
        keys = draw(st.lists(st.sampled_from(conf.HIGH_KEYS), max_size=max_rows))
        if draw(st.booleans()):
            keys += draw(colliding_keys(0x2000))
    else:
        keys = draw(st.lists(conf.uni_keys(), max_size=max_rows))
        if draw(st.booleans()):
            keys += draw(colliding_keys())
    rows = [[k, draw(conf.replacement().map(conf.fixable))] for k in keys]
    default = draw(st.sampled_from([None, None, None, "", "_", "-", "dflt", "\xc2\xbf", "a_rather_long_default_text"]))
    return {"rows": rows, "default": default, "form": draw(st.integers(0, 1 << 30))}


@st.composite
def tabled_filter(draw):
    kind, builtins = draw(st.sampled_from(TABLED))
    k = draw(st.integers(0, 9))
    if k == 0:
        return {"f": kind}
    if k == 1:
        return {"f": kind, "builtin": draw(st.sampled_from(builtins))}
    return {"f": kind, "table": draw(table_spec(kind))}


def key_text(flt):
    """The characters a filter's table knows."""
    out = []
    for k, _ in flt.get("table", {"rows": []})["rows"]:
        if flt["f"] == "utf_8":
            out.append(utf8(k))
        elif k < 0x100:
            out.append(chr(k))
    return [t for t in out if t not in ("\n", "")]


def fits(filters, name, limit=4000):
    """No step gets out of hand."""
    for f in filters:
        name = model.run_filter(f, name)
        if len(name) > limit:
            return False
    return True


class C09(Filter):
    id = "C09"
    rule = ("Generated tables (any codes, including ones that share a hash slot and ones of four UTF-8 bytes; translations of zero to twenty bytes; with "
            "and without default), one to three tabled filters in a row, optionally followed by others; batches of strings made from the codes in the "
            "tables and other bytes. Oracle: a dictionary lookup. Non-trivial: a translation or default was used.")

    def strategy(self, env):
        @st.composite
        def case(draw):
            fl = draw(st.lists(tabled_filter(), min_size=1, max_size=3))
            more = draw(st.lists(conf.flt(kinds=["uncgi", "lower", "wipeup", "max_length"]), max_size=1))
            alpha = [t for f in fl for t in key_text(f)]
            alpha = alpha * 2 + ["a", "b", "_", "\x01", "\x7f", "\x80", "\xa0", "\xff", "\xe9", utf8(0xE9), utf8(0x20AC), utf8(0x1F600), utf8(0x2010), "Z", " ", "."]
            ls = draw(lines_of(words(alpha, 14), 4, 16))
            return {"filters": fl + more, "form": draw(st.integers(0, 1 << 30)), "lines": ls, "how": draw(HOW)}

        return case()

    def fixed(self, env):
        """Every code of each kind of table, with translations of many lengths."""
        out = []
        for default in (None, "_", "quite_a_long_default"):
            for mul in (1, 3, 7):
                rows = [[k, "<%x>" % (k * mul) + "y" * (k % 5)] for k in BYTES if k not in (10, 34, 39) and (k < 0x80 or k % 3 == mul % 3)]
                lines = ["".join(map(chr, range(1, 10))), "".join(map(chr, range(11, 128))), "".join(map(chr, range(128, 256))), "plain", "\x80\xff\xe9", "a\xe9b"]
                out.append({"filters": [{"f": "safe", "table": {"rows": rows, "default": default, "form": mul}}], "form": mul, "lines": lines, "how": "inline"})
                rows = [[k, "(%x)" % (k * mul)] for k in range(0x80, 0x100) if k % mul == 0]
                out.append({"filters": [{"f": "iso8859_1", "table": {"rows": rows, "default": default, "form": mul}}], "form": mul,
                            "lines": ["".join(map(chr, range(0x80, 0x100))), "plain \x01\x7f!", "a\xe9b"], "how": "inline"})
                cps = [c * mul for c in list(range(1, 0x3000, 37)) + list(range(0x3000, 0x30000, 977))]
                cps = [c for c in cps if c < 0x110000 and c != 10]
                rows = [[c, "{%x}" % c] for c in cps if c % 2]
                lines = stream.chunks(cps, 40)
                out.append({"filters": [{"f": "utf_8", "table": {"rows": rows, "default": default, "form": mul}}], "form": mul,
                            "lines": ["".join(map(utf8, x)) for x in lines], "how": "inline"})
        return out

    def run(self, env, case):
        w = env.fresh()
        opts = custom_opts(w, case["filters"], case["form"])
        fl = conf.as_model(case["filters"])
        used = [0]
        # chained long translations multiply: leave out what would not fit
        case = dict(case, lines=[t for t in case["lines"] if fits(fl, B(t))])

        def want(g):
            out = model.run_filters(fl, g)
            used[0] += out != g
            return out

        self.check(env, case, opts, want)
        kinds = [f["f"] for f in case["filters"] if f["f"] in model.DEFAULT_BUILTIN]
        chained = any(a == b for a, b in zip(kinds, kinds[1:]))
        return Outcome(used[0] > 0, ["chain of one kind" if chained else "single or mixed", case["how"]] + kinds)


class C10(Filter):
    id = "C10"
    rule = ("Byte strings made of well-formed characters of every width, the listed characters and their neighbours, truncated, stray, overlong and "
            "out-of-range sequences and random bytes, through the utf_8 filter with the builtin table and the shipped table file; every code point up to "
            "U+10FFFF and every pair of lead and following byte is enumerated (thorough: completely, quick: a sixteenth chosen by the seed). Oracle: an "
            "independent decoder. Non-trivial: a malformed sequence or a listed character occurred.")
    ALPHA = names.UTF8 * 2 + names.UTF8_MAPPED + names.UTF8_NEAR + names.UTF8_BAD * 2 + names.UTF8_SLASH + ["a", "/", " ", ".", "\x01", "\x7f", "\x1f"]

    def strategy(self, env):
        lead = st.integers(0xC0, 0xFF).map(chr)
        cont = st.integers(0x80, 0xBF).map(chr)
        other = st.sampled_from(["a", "\x80", "\xbf", "\xc3", "\xff", ""])
        seqs = st.tuples(lead, st.lists(cont, max_size=6).map("".join), other).map("".join)
        mixed = st.lists(gen.one_of(seqs, st.sampled_from(self.ALPHA)), min_size=1, max_size=8).map("".join).map(stream.clip)
        cps = st.lists(st.integers(1, 0x10FFFF).filter(lambda c: c != 10).map(utf8), min_size=1, max_size=8).map("".join)
        return st.fixed_dictionaries({"lines": lines_of(gen.one_of(words(self.ALPHA, 10), mixed, mixed, cps)),
                                      "route": st.sampled_from(ROUTES), "how": HOW})

    def fixed(self, env):
        out = []
        step = 1 if env.tier == "thorough" else 16
        for start in range(env.seed % step, 0x110000 // 2048, step):
            cps = [c for c in range(start * 2048, start * 2048 + 2048) if c not in (0, 10)]
            out.append({"lines": ["x" + "y".join(map(utf8, x)) for x in stream.chunks(cps, 64)], "route": "builtin" if start % 2 else "files", "how": "inline"})
        listed = list(range(0x2000, 0x2080)) + list(range(0x80, 0x180))
        for r in ROUTES[1:]:
            out.append({"lines": ["a" + utf8(c) + "b" for c in listed] + [chr(c) for c in range(1, 0x80) if c != 10], "route": r, "how": "inline"})
        pairs = [chr(a) + chr(b) + t for a in range(0x80, 0x100) for b in range(0x80, 0x100, 1 if env.tier == "thorough" else 9) for t in ("", "\x80", "z")]
        out += [{"lines": x, "route": "builtin", "how": "inline"} for x in stream.chunks(pairs, 4000)]
        bad = ["\xf4\x90\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xfb\xbf\xbf\xbf\xbf", "\xfc\x84\x80\x80\x80\x80", "\xfd\xbf\xbf\xbf\xbf\xbf",
               "\xc0\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xf8\x80\x80\x80\x80", "\xfc\x80\x80\x80\x80\x80", "\xf4\x8f\xbf\xbf"]
        out.append({"lines": [b for b in bad] + [b + b for b in bad] + ["a" + b + "c" for b in bad] + [b[:k] for b in bad for k in range(1, len(b))]
                    + [b[:k] + "z" for b in bad for k in range(1, len(b))] + [b[:k] + c for b in bad for k in range(1, len(b)) for c in bad],
                    "route": "builtin", "how": "inline"})
        return out

    def run(self, env, case):
        w = env.fresh()
        opts = route_opts(env, w, "utf_8-only", case["route"])
        fl = model.SHIPPED["utf_8-only"]
        seen = [0, 0]

        def want(g):
            out = model.run_filters(fl, g)
            seen[0] += out != g
            try:
                g.decode("utf-8")
            except UnicodeDecodeError:
                seen[1] += 1
            else:
                out.decode("utf-8")
            return out

        self.check(env, case, opts, want)
        return Outcome(seen[0] > 0, [case["route"], case["how"], "some malformed" if seen[1] else "all well-formed"])


class C11(Filter):
    id = "C11"
    rule = ("Byte strings rich in bytes above 0x7F through the four transcoding sequences, with builtin tables, the shipped config and the shipped table "
            "files; all 256 bytes and all pairs of high bytes are enumerated. Oracle: Python's latin-1 and cp1252 codecs. Non-trivial: a byte was "
            "transcoded. The legacy sequence's double encoding of 0x80-0x9F is a known finding, recognised by its exact result.")

    def strategy(self, env):
        hi = st.integers(0x80, 0xFF).map(chr)
        mix = st.lists(gen.one_of(hi, hi, st.sampled_from(["a", " ", "&", "_", "-", ".", "Z", "\x7f"])), min_size=1, max_size=14).map("".join)
        return st.fixed_dictionaries({"lines": lines_of(gen.one_of(mix, words(names.HIGH + names.UTF8 + ["a", "(", "."]))), "route": st.sampled_from(ROUTES),
                                      "how": HOW, "seq": st.sampled_from(["iso8859_1-only", "iso8859_1-only", "cp1252-only", "cp1252-only", "iso8859_1", "iso8859_1-legacy"])})

    def fixed(self, env):
        out = []
        singles = ["a%sb" % chr(c) for c in range(1, 256) if c != 10]
        pairs = [chr(a) + chr(b) for a in range(0x80, 0x100) for b in range(0x80, 0x100)]
        for s in ("iso8859_1-only", "cp1252-only", "iso8859_1", "iso8859_1-legacy"):
            for r in ROUTES[1:]:
                out.append({"lines": singles, "route": r, "how": "inline", "seq": s})
            if s.endswith("only"):
                out += [{"lines": x, "route": "builtin", "how": "inline", "seq": s} for x in stream.chunks(pairs, 4096)]
        return out

    @staticmethod
    def transcode(seq, g):
        """From the codecs alone."""
        out = []
        for b in g:
            c = bytes([b])
            if b < 0x80:
                out.append(c)
            elif seq == "cp1252-only":
                if b < 0xA0:
                    try:
                        out.append(c.decode("cp1252").encode())
                    except UnicodeDecodeError:
                        out.append(b"-")
                else:
                    out.append(c)
            elif seq == "iso8859_1-legacy" and b < 0xA0:
                try:
                    out.append(c.decode("cp1252").encode())
                except UnicodeDecodeError:
                    out.append(b"-")
            elif b < 0xA0:
                out.append(b"_")
            elif b == 0xA0:
                out.append(b" ")
            elif b == 0xAD:
                out.append(b"-")
            else:
                out.append(c.decode("latin-1").encode())
        out = b"".join(out)
        if not seq.endswith("only"):
            out = model.run_filters(model.SHIPPED["default"], out)
        return out

    def run(self, env, case):
        w = env.fresh()
        seq = case["seq"]
        opts = route_opts(env, w, seq, case["route"])
        try:
            given, want = self.check(env, case, opts, lambda g: self.transcode(seq, g))
        except Violation as v:
            if seq == "iso8859_1-legacy" and any(0x80 <= ord(c) < 0xA0 for t in case["lines"] for c in t):
                # the known defect: the second table is applied to the UTF-8 the first one wrote
                env.fresh()
                opts = route_opts(env, w, seq, case["route"])
                self.check(env, case, opts, lambda g: model.run_filters(model.SHIPPED[seq], g))
                raise Violation(str(v), finding="legacy-double-encoding")
            raise
        if seq == "iso8859_1-only":
            for e in want:
                e.decode("utf-8")
        return Outcome(any(a != b for a, b in zip(given, want)), [seq, case["route"], case["how"]])


class C12(Filter):
    id = "C12"
    rule = ("Strings of escapes (valid, partial, invalid, nested, both cases, NUL), plus signs and other bytes through uncgi, and encodings of generated "
            "names with a generated choice of what to escape, which have to decode to the name; all %XY with XY over a set of 26 characters and all "
            "short strings over % 2 5 F + g are enumerated. Non-trivial: something was decoded.")
    ALPHA = names.CGI * 2 + names.CGI_SLASH + ["%", "%%", "2", "5", "F", "f", "0", "g", "G", "+", " ", "%4", "%a", "a", "\xe9", "%\xc3", "\xc3\xa9", "%:a", "%@1", "%`1", "%/1"]

    def strategy(self, env):
        @st.composite
        def encoded(draw):
            plain = draw(names.raw_name())
            out = []
            style = draw(st.integers(0, 1 << 30))
            dice = conf.Dice(style)
            dense_ = dice(3)
            for c in plain:
                must = c in "%+"
                if c == " " and dice(2):
                    out.append("+")
                elif must or dice(3) <= dense_ - 1:
                    h = "%02x" % ord(c)
                    out.append("%" + "".join(x.upper() if dice(2) else x for x in h))
                else:
                    out.append(c)
            return [plain, "".join(out)]

        return gen.one_of(
            st.fixed_dictionaries({"lines": lines_of(gen.one_of(words(self.ALPHA), dense(["%", "2", "5", "F", "+", "0", "a", "g"]))), "how": HOW}),
            st.fixed_dictionaries({"pairs": st.lists(encoded(), min_size=4, max_size=20), "how": HOW}))

    def fixed(self, env):
        ch = "0129afgAFGzZ%+ /:@`\x7f\xe9-_.x\x01"
        out = [{"lines": ["a%%%s%sb" % (a, b) for a in ch for b in ch], "how": "inline"},
               {"lines": ["%%%02x" % c for c in range(256)] + ["%%%02Xz" % c for c in range(256)], "how": "inline"}]
        out += [{"lines": x, "how": "inline"} for x in stream.chunks([t for t in stream.all_strings("%25F+g", 5) if t], 2500)]
        return out

    def run(self, env, case):
        w = env.fresh()
        opts = ["-s", "uncgi-only"]
        if "pairs" in case:
            table = {B(e): B(p) for p, e in case["pairs"]}
            sub = {"lines": [e for _, e in case["pairs"] if len(e) <= stream.MAX_LINE], "how": case["how"]}
            if case["how"] == "files":
                sub["lines"] = sorted({e for e in sub["lines"]})
            given, want = self.check(env, sub, opts, lambda g: table[g])
        else:
            given, want = self.check(env, case, opts, model.f_uncgi)
        return Outcome(any(a != b for a, b in zip(given, want)), ["round trip" if "pairs" in case else "strings", case["how"]])


class C13(Filter):
    id = "C13"
    rule = ("Strings over . - _ # and other characters, including long runs, through wipeup with and without remove_trailing; all strings of up to six "
            "characters over . - _ # a are enumerated for both. Oracle: an independent definition by runs. Non-trivial: a run or a leading character "
            "was reduced.")
    ALPHA = names.RUNS * 2 + [".", "-", "_", "#", "a", "b", "X", " ", "\xe9", "\xc3\xa9", "\xad", "=", ".x", "~"]

    def strategy(self, env):
        return st.fixed_dictionaries({"lines": lines_of(gen.one_of(words(self.ALPHA), dense([".", "-", "_", "#", "a"], 16))), "trailing": st.booleans(),
                                      "how": HOW, "form": st.integers(0, 1 << 30)})

    def fixed(self, env):
        short = [t for t in stream.all_strings(".-_#a", 6) if t]
        out = [{"lines": x, "trailing": tr, "how": "inline", "form": 1} for tr in (False, True) for x in stream.chunks(short, 5000)]
        every = ["-%sa" % chr(c) for c in range(1, 256) if c != 10] + ["a_%s-b" % chr(c) for c in range(1, 256) if c != 10] + [chr(c) for c in range(1, 256) if c != 10]
        out += [{"lines": every, "trailing": tr, "how": "inline", "form": 1} for tr in (False, True)]
        return out

    def run(self, env, case):
        w = env.fresh()
        opts = custom_opts(w, [{"f": "wipeup", "trailing": case["trailing"]}], case["form"])
        given, want = self.check(env, case, opts, lambda g: model.f_wipeup(g, case["trailing"]))
        return Outcome(any(a != b for a, b in zip(given, want)), ["remove_trailing" if case["trailing"] else "plain", case["how"]])


class C14(Filter):
    id = "C14"
    rule = ("Names with generated numbers, places and lengths of extensions through max_length with limits near the name's length, near the extension's "
            "length, and at random, and without a limit; all strings of up to nine characters over 'a' and '.' are enumerated for the limits 1-9. "
            "Non-trivial: a name was cut, or was too short to cut.")

    def strategy(self, env):
        @st.composite
        def case(draw):
            limit = draw(gen.one_of(st.integers(1, 30), st.integers(1, 300), st.just(0), st.sampled_from([255, 256, 257])))
            eff = limit or 256
            part = gen.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 40)).map(lambda n: ("abcdefghij" * 30)[:n])
            ext = st.lists(part, max_size=4).map(lambda l: "".join("." + e for e in l))
            stem = gen.one_of(st.integers(0, 12), st.integers(max(0, eff - 12), eff + 12), st.integers(0, 320)).map(lambda n: ("stemSTEM0123-_ " * 30)[:n])
            fill = st.sampled_from(["", "", "", "\xe9", "\xc3\xa9", "\xff", "#", "%20"])
            line = st.tuples(stem, fill, ext).map("".join)
            exact = st.tuples(ext, st.integers(-3, 8)).map(lambda t: ("m" * 400)[: max(0, eff + t[1] - len(t[0]))] + t[0])
            ls = draw(lines_of(gen.one_of(line, exact, dense(["a", "."], 14), words(["a", ".", ".tar.gz", ".txt", "b c"])).filter(lambda t: t != ""), 6, 24))
            return {"lines": ls, "limit": limit, "how": draw(HOW), "form": draw(st.integers(0, 1 << 30))}

        return case()

    def fixed(self, env):
        short = [t for t in stream.all_strings("a.", 9) if t]
        out = [{"lines": short, "limit": n, "how": "inline", "form": 0} for n in range(1, 10)]
        for n in (0, 255, 256, 1000, 12):
            e = n or 256
            ls = []
            for total in range(max(1, e - 2), min(e + 4, 990)):
                for ext in ("", ".", ".t", ".txt", ".tar.gz", ".abcd.e", ".abcde.f", "." + "x" * 30):
                    if len(ext) <= total:
                        ls.append(("q" * 1000)[: total - len(ext)] + ext)
            out.append({"lines": ls, "limit": n, "how": "inline", "form": 0})
        out.append({"lines": ["this_is_my_file.txt", "this_is_my_file.tar.gz", "abcdefghijklmnop", "abcdefghijklm."], "limit": 12, "how": "files", "form": 0})
        return out

    def run(self, env, case):
        w = env.fresh()
        opts = custom_opts(w, [{"f": "max_length", "length": case["limit"]}], case["form"])
        eff = case["limit"] or 256

        def want(g):
            out = model.f_max_length(g, case["limit"])
            ext = model.kept_extension(g)
            if len(g) > eff and len(ext) < eff and (len(out) != eff or not out.endswith(ext) or not g.startswith(out[: len(out) - len(ext)])):
                raise AssertionError(out)
            return out

        given, wanted = self.check(env, case, opts, want)
        return Outcome(any(len(g) > eff for g in given), ["cut" if any(a != b for a, b in zip(given, wanted)) else "nothing cut", case["how"],
                                                          "no limit given" if case["limit"] == 0 else "limit"])


LOCALES = [("de_DE", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("cs_CZ", "ISO-8859-2"), ("ru_RU", "KOI8-R"), ("en_US", "UTF-8"), ("tr_TR", "UTF-8")]


def build_locales(env):
    """Compiles locales of several charsets into the scratch folder."""
    d = os.path.join(env.scratch, "locales")
    os.mkdir(d)
    jobs = []
    for lang, cs in LOCALES:
        name = "%s.%s" % (lang, cs)
        jobs.append((name, subprocess.Popen(["localedef", "-c", "-i", lang, "-f", cs, "--no-archive", os.path.join(d, name)],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    made = []
    for name, p in jobs:
        p.wait()
        if os.path.exists(os.path.join(d, name, "LC_CTYPE")):
            made.append(name)
            os.chmod(os.path.join(d, name), 0o755)
    env.extra["locales"] = made
    return d


class C15(Filter):
    id = "C15"
    quick, thorough = 400, 8000
    rule = ("Strings of ASCII letters, legacy bytes and UTF-8 letters through lower, and through whole sequences with builtin or generated tables, under "
            "locales of several charsets compiled for the run (where bytes above 0x7F are letters, spaces or digits) and the system's; all bytes are "
            "enumerated in each. Non-trivial: an upper-case ASCII letter or a byte above 0x7F occurred under a locale other than C.")
    ALPHA = ["A", "Z", "I", "i", "M", "@", "[", "`", "{", "a", "z", "0", "\xc4", "\xd6", "\xdd", "\xe4", "\xff", "\xa0", "\x85", "\xc3\x84", "\xc4\xb0", "\xce\x91", "\xd0\x90", "\xd0", "_", ".", "-", "%41", "%C4", "%"]

    def prepare(self, env):
        Filter.prepare(self, env)
        env.extra["locpath"] = build_locales(env)
        if not env.extra["locales"]:
            print("note: no locales could be compiled; the system's are used")

    def choices(self, env):
        return ["C", "C.UTF-8", "POSIX", "en_US.utf8", "de_DE.utf8", "xx_YY.nonsense"] + env.extra["locales"] * 2

    def strategy(self, env):
        sequences = gen.one_of(st.just("lower-only"), st.just("lower-only"), st.sampled_from(sorted(model.SHIPPED)),
                              conf.filter_list(3))
        return st.fixed_dictionaries({"lines": lines_of(gen.one_of(words(self.ALPHA), names.raw_name())), "seq": sequences,
                                      "locale": st.sampled_from(self.choices(env)), "var": st.sampled_from(["LC_ALL", "LC_CTYPE", "LANG"]),
                                      "how": HOW, "form": st.integers(0, 1 << 30)})

    def fixed(self, env):
        out = []
        for loc in self.choices(env)[: 6 + len(env.extra["locales"])]:
            every = ["x%sY" % chr(c) for c in range(1, 256) if c != 10]
            for s in ("lower-only", "lower", "default", "uncgi", "utf_8", "iso8859_1"):
                for how in ("inline", "files"):
                    out.append({"lines": every, "seq": s, "locale": loc, "var": "LC_ALL", "how": how, "form": 0})
            # a table file makes detox take on the locale
            tab = {"rows": [[1, "x"]], "default": None, "form": 5}
            for more in ({"f": "lower"}, {"f": "uncgi"}, {"f": "wipeup", "trailing": True}, {"f": "utf_8"}, {"f": "iso8859_1"}, {"f": "safe"}):
                out.append({"lines": every, "seq": [{"f": "safe", "table": tab}, more], "locale": loc, "var": "LC_ALL", "how": "inline", "form": 0})
        return out

    def run(self, env, case):
        w = env.fresh()
        envv = {"LC_ALL": None, case["var"]: case["locale"]}
        if env.extra["locales"] and case["locale"] in env.extra["locales"]:
            envv["LOCPATH"] = env.extra["locpath"]
        if isinstance(case["seq"], str):
            opts = ["-s", case["seq"]]
            fl = model.SHIPPED[case["seq"]]
        else:
            opts = custom_opts(w, case["seq"], case["form"])
            fl = conf.as_model(case["seq"])
        given, _ = self.check(env, case, opts, lambda g: model.run_filters(fl, g), envv)
        rich = any(0x41 <= c <= 0x5A or c >= 0x80 for g in given for c in g)
        return Outcome(rich and case["locale"] not in ("C", "POSIX"), [case["locale"], "lower-only" if case["seq"] == "lower-only" else "sequence"])


_ = S
