"""Checks of inline mode as a stream filter, and of table files as text."""

import os
import re

from hypothesis import strategies as st

from .. import gen

from .. import conf, fsx, model, names, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S
from ..treerun import SEQS, filters_of, setup_seq
from .filters import build_locales, fits, key_text, table_spec, utf8

LOCAL = ["lower-only", "utf_8-only", "iso8859_1-only", "cp1252-only"]
STEP = 1007  # what one read of inline mode takes today; lengths around its multiples are favoured


@st.composite
def long_line(draw, alphabet, top):
    """A line that is longer than any buffer, with something interesting
    where a buffer may end."""
    out = ""
    for _ in range(draw(st.integers(1, top))):
        unit = draw(st.sampled_from(alphabet + ["a", "a", "a", "xyz"]))
        at = draw(st.sampled_from([STEP, STEP, STEP, 1024, 1023, 4096, 2048, 512, 300])) + draw(st.integers(-9, 4))
        target = (len(out) // STEP) * STEP + at
        while len(out) + len(unit) <= target:
            out += unit
        out += "." * draw(st.integers(0, 2)) if draw(st.booleans()) else "b" * max(0, min(8, target - len(out)))
        out += draw(st.lists(st.sampled_from(alphabet), max_size=8).map("".join))
    return out.replace("\n", "").replace("\0", "")


class C16(Prop):
    id = "C16"
    quick, thorough = 420, 9000
    rule = ("Streams of lines (short ones through any sequence, ones of up to 9000 bytes through filters that work by character, with UTF-8 characters of every "
            "width and malformed ones where a read may end) are given on standard input, to detox --inline, and as one or several files, with and without a "
            "final newline; the output has to be, byte for byte, the cleaned lines, and no file may change. Non-trivial: a line changed and there were several lines, "
            "files or reads.")

    def strategy(self, env):
        short = gen.one_of(stream.words(names.ALL), names.raw_name(), st.sampled_from([".", "..", "...", "", ". ", "a b\r", "\r", "-", "#", "./a b", "/x y/z w", "-n", "--help"]))
        part = st.tuples(st.lists(short, max_size=12), st.booleans()).map(list)
        wide = names.UTF8 + names.UTF8_MAPPED + names.UTF8_BAD + names.HIGH + ["A", "Z", ".", " ", "_", "\xc2\xa0", "\xe2\x80\xa8"]
        lpart = st.tuples(st.lists(gen.one_of(long_line(wide, 3), long_line(wide, 8), short), min_size=1, max_size=4), st.booleans()).map(list)

        @st.composite
        def local(draw):
            k = draw(st.integers(0, 3))
            if k < 3:
                return {"shipped": draw(st.sampled_from(LOCAL))}
            kind = draw(st.sampled_from(["safe", "iso8859_1", "utf_8"]))
            spec = draw(table_spec(kind))
            spec["rows"] = [r for r in spec["rows"] if r[0] != 0x2E]
            return {"custom": [{"f": kind, "table": spec}], "form": draw(st.integers(0, 1000))}

        anyseq = gen.one_of(st.sampled_from(SEQS).map(lambda n: {"shipped": n}),
                           st.fixed_dictionaries({"custom": conf.filter_list(3), "form": st.integers(0, 1 << 30)}))
        extra = {"how": st.sampled_from(["inline-detox", "--inline", "files", "files", "--inline files"]), "odd": st.sampled_from([None, None, None, "missing", "dir", "link", "flags"])}
        a = st.fixed_dictionaries(dict(extra, parts=st.lists(part, min_size=1, max_size=4), seq=anyseq))
        b = st.fixed_dictionaries(dict(extra, parts=st.lists(lpart, min_size=1, max_size=2), seq=local()))
        return gen.one_of(a, b)

    def fixed(self, env):
        """Each interesting character at each distance from where a read ends."""
        out = []
        for t in ["\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\xa0", "\xe2\x80\xa8", "\xe2\x80", "\xf0\x9f\x98", "\xc3", "\xbf\xbf", "\x80" * 8, "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80",
                  "\xe2\x82\xac\x80\x80", ".", "..", "\xc0\x80", "A\xc3"]:
            for s in ("utf_8-only", "lower-only"):
                ls = []
                for n in (1007, 1008, 1023, 1024, 2014, 4096):
                    ls += ["a" * (n - k) + t + tail for k in range(-1, 10) for tail in ("", "Z", "\x80")]
                for nl in (True, False):
                    out.append({"parts": [[ls, nl]], "seq": {"shipped": s}, "how": "inline-detox", "odd": None})
                for x in ls[:33]:
                    out.append({"parts": [[[x], False]], "seq": {"shipped": s}, "how": "files", "odd": None})
        dots = {"custom": [{"f": "safe", "table": {"rows": [[0x61, "A"]], "default": "_", "form": 3}}], "form": 1}
        out.append({"parts": [[["a" * n + t for n in (0, 1, 1005, 1006, 1007, 1008, 2013, 2014, 2015) for t in (".", "..", "...", "")], True]], "seq": dots, "how": "inline-detox", "odd": None})
        for n in (0, 1, 1006, 1007, 1008, 1009, 2014, 2015, 100000, 1 << 20):
            out.append({"parts": [[["B" * n, "c D"], True]], "seq": {"shipped": "lower-only"}, "how": "inline-detox", "odd": None})
            out.append({"parts": [[["x"] * n, True]], "seq": {"shipped": "default"}, "how": "--inline", "odd": None}) if n < 200000 else None
        return out

    def run(self, env, case):
        w = env.fresh()
        fl = filters_of(case["seq"])
        top = max((len(x) for p in case["parts"] for x in p[0]), default=0)
        if top <= stream.MAX_LINE and not all(fits(fl, B(x)) for p in case["parts"] for x in p[0]):
            return Outcome(False, ["too large"])
        opts = setup_seq(case["seq"], w)
        cwd = os.path.join(w, b"in put")
        os.mkdir(cwd)
        data, want = [], []
        for part, final in case["parts"]:
            part = [B(x) for x in part]
            d = b"\n".join(part) + (b"\n" if final and part else b"")
            data.append(d)
            if final:
                want.append(b"".join(model.clean(fl, x) + b"\n" for x in part))
            else:
                want.append(b"\n".join(model.clean(fl, x) for x in part))
        program = "inline-detox" if case["how"] in ("inline-detox", "files") else "detox"
        cmd = [os.fsencode(env.bin(program))] + [B(o) for o in opts] + ([b"--inline"] if program == "detox" else [])
        if case["odd"] == "flags":
            cmd += [b"-r", b"--special"]
        args, stdin = [], b""
        if "files" in case["how"]:
            for i, d in enumerate(data):
                with open(os.path.join(cwd, b"f i (%d)" % i), "wb") as f:
                    f.write(d)
                args.append(b"f i (%d)" % i)
            if case["odd"] == "link":
                os.symlink(args[0], os.path.join(cwd, b"li nk"))
                args[0] = b"li nk"
            elif case["odd"] == "dir":
                os.mkdir(os.path.join(cwd, b"a dir"))
                args.insert(len(args) // 2, b"a dir")
            elif case["odd"] == "missing":
                args.insert(len(args) // 2, b"not there")
        else:
            # one stream: only the last part can lack its newline
            stdin = b"".join(data)
            if top <= stream.MAX_LINE < max(map(len, stdin.split(b"\n"))):
                stdin = b"\n".join(data)  # the parts' ends make up a long line
                data = [stdin]
            want = [self.whole(fl, stdin)]
            with open(os.path.join(cwd, b"by stander"), "wb"):
                pass
        before = fsx.full(cwd)
        rc, out, err = env.run(cmd + ([b"--"] + args if args else []), cwd, stdin=stdin, timeout=60)
        if rc != 0:
            raise Violation("status %d: %r" % (rc, err[:300]))
        if fsx.full(cwd) != before:
            raise Violation("inline mode changed files: %r" % sorted(os.listdir(cwd)))
        want = b"".join(want)
        if out != want:
            a, b = out.split(b"\n"), want.split(b"\n")
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                    raise Violation("line %d differs at byte %d: %r instead of %r (given %r)" % (i, k, x[max(0, k - 20):k + 40], y[max(0, k - 20):k + 40], b"".join(data).split(b"\n")[i][max(0, k - 20):k + 40]))
            raise Violation("%d lines instead of %d, ending in %r instead of %r" % (len(a), len(b), out[-20:], want[-20:]))
        if args and case["odd"] in ("dir", "missing"):
            if (b"a dir" if case["odd"] == "dir" else b"not there") not in err:
                raise Violation("no message about %s: %r" % (case["odd"], err[:300]))
        changed = want != b"".join(data)
        return Outcome(changed and (top > 1000 or len(data) > 1 or len(case["parts"][0][0]) > 1), [case["how"], "long lines" if top > 1000 else "short lines", "final newline" if want.endswith(b"\n") else "no final newline"])

    @staticmethod
    def whole(fl, data):
        ls = data.split(b"\n")
        out = [model.clean(fl, x) for x in ls[:-1]]
        last = model.clean(fl, ls[-1]) if ls[-1] else b""
        return b"".join(x + b"\n" for x in out) + last


# ------------------------------------------------------------------------ tables


LANGS = ["en", "de", "en_US", "de_DE", "fr", "EN", "De_de", "tr_TR.ISO", "C", "c", "POSIX", "ru", "en_US.UTF-8", "xx"]


def block_text(spec):
    """The text of a table of blocks; see C17.  Every other aspect of how it is
    written comes from spec["form"]."""
    dice = conf.Dice(spec["form"])
    out = []

    def noise():
        while dice(4) == 0:
            out.append(conf.noise_line(dice))

    def default():
        d = spec["default"]
        if d == "" or d is None and replaced:
            out.append(["default \"\"", "default ''", "default", "Default\t "][dice(4)])
        elif d is not None:
            out.append(["default", "DEFAULT", " default", "Default"][dice(4)] + [" ", "\t\t", "   "][dice(3)] + conf.quote(d, dice)[0] + ["", " ", "  # why", "\t"][dice(4)])

    where = dice(len(spec["blocks"]) + 1)
    replaced = []

    def earlier():
        """Defaults that do not count, as another follows."""
        if spec.get("old") and dice(2):
            replaced.append(spec["old"][dice(len(spec["old"]))])
            out.append("default " + conf.quote(replaced[-1], dice)[0])

    for i, (lang, rows) in enumerate(spec["blocks"]):
        noise()
        if i <= where:
            earlier()
        if i == where:
            default()
            noise()
        word = ["start", "Start", "START", " start", "\tstart", "stART"][dice(6)]
        if lang is None:
            out.append(word + ["", " ", "\t", "  \t"][dice(4)])
        else:
            k = dice(3)
            out.append(word + [" ", "\t", "  "][dice(3)] + [lang, '"%s"' % lang, "'%s'" % lang][k] + ["", " ", "\t"][dice(3)])
        for key, repl in rows:
            noise()
            out.append(conf.row_text(key, repl, dice))
        noise()
        out.append(["end", "End", "END", "\tend", "end ", " end\t"][dice(6)])
    noise()
    if where == len(spec["blocks"]):
        earlier()
        default()
    nl = "\r\n" if dice(6) == 0 else "\n"
    return B(nl.join(out) + (nl if dice(4) else ""))


def applies(lang, ctype):
    """A block counts when the locale's name starts with its language."""
    return lang is None or ctype.lower().startswith(lang.lower())


def read_table(text, ctype):
    """(rows, default) of a well-formed table file, read as detox.tbl(5) says."""
    rows, default, inside = {}, None, None
    for line in text.split(b"\n"):
        m = re.match(rb"\s*([^\s#]\S*)\s*(?:\"([^\"]*)\"|'([^']*)'|(\S+))?", line)
        if not m or line.startswith(b"#"):
            continue
        value = next((x for x in m.groups()[1:] if x is not None), b"")
        word = m[1].lower()
        if inside is None:
            if word == b"start":
                inside = applies(S(value) or None, ctype)
            elif word == b"default":
                default = value or None
        elif word == b"end":
            inside = None
        elif inside:
            code = S(word)
            rows[int(code, 16 if code.startswith("0x") else 8 if code.startswith("0") else 10)] = value
    return rows, default


class C17(Prop):
    id = "C17"
    quick, thorough = 420, 9000
    rule = ("One table, as a list of blocks with rows, languages and a default, is written in two to four ways (number bases, quoting, keyword case, comments, "
            "blanks, order and splitting of blocks, without a last newline) and used under locales of several languages; all ways have to give the dictionary's result. Tables of up to "
            "tens of thousands of rows, repeated rows, and rows of minimal length are included, lines of every length up to 1,000 bytes, and so are all tables of the distribution, the legacy ones included, read by a second reader. Non-trivial: a translation was used and the forms differ.")

    def prepare(self, env):
        env.extra["locpath"] = build_locales(env)
        stream.prepare_shipped(env)

    def strategy(self, env):
        locales = ["C", "POSIX", "C.UTF-8", "xx_YY.none"] + env.extra["locales"] * 2

        @st.composite
        def case(draw):
            kind = draw(st.sampled_from(["safe", "iso8859_1", "utf_8", "utf_8"]))
            blocks = []
            for _ in range(draw(st.integers(1, 4))):
                lang = draw(st.sampled_from([None, None] + LANGS))
                rows = draw(table_spec(kind, 8))["rows"]
                blocks.append([lang, rows])
            keys = [r[0] for b in blocks for r in b[1]]
            if keys and draw(st.booleans()):
                blocks.append([draw(st.sampled_from([None] + LANGS)), [[k, draw(conf.replacement().map(conf.fixable))] for k in keys[:4]]])
            default = draw(st.sampled_from([None, None, None, "", "_", "dflt", "#", "\xc2\xbf", "x y", "'", "long_default_translation"]))
            flt = {"f": kind, "table": {"rows": [r for b in blocks for r in b[1]]}}
            alpha = key_text(flt) * 2 + ["a", "b", "_", "\x80", "\xe9", utf8(0xE9), utf8(0x20AC), "Z", " ", "\xff"]
            old = draw(st.lists(st.sampled_from(["old", "__", "longer than the last one", "'", "#"]), max_size=2)) if draw(st.integers(0, 3)) == 0 else []
            return {"kind": kind, "blocks": blocks, "default": default, "old": old, "forms": draw(st.lists(st.integers(0, 1 << 30), min_size=2, max_size=4, unique=True)),
                    "lines": draw(stream.lines_of(stream.words(alpha, 10), 4, 12)), "locale": draw(st.sampled_from(locales + [""])), "var": draw(st.sampled_from(["LC_ALL", "LC_CTYPE", "LANG"])),
                    "rest": draw(st.lists(st.sampled_from([None, None, ""] + locales), min_size=2, max_size=2))}

        @st.composite
        def big(draw):
            return {"big": draw(gen.one_of(st.integers(1, 3000), st.integers(3000, 40000))), "shape": draw(st.sampled_from(["minimal", "repeat", "mixed", "spread", "stride"])),
                    "salt": draw(st.integers(0, 5000)), "form": draw(st.integers(0, 1 << 30))}

        cases = case()
        exact = st.fixed_dictionaries({"exact": gen.one_of(st.integers(8, 1000), st.integers(970, 1000)), "how": st.sampled_from(self.EXACT), "salt": st.integers(0, 15)})
        return gen.one_of(*[cases] * 14, big(), exact)

    def fixed(self, env):
        out = [{"big": n, "shape": s, "salt": n, "form": n} for n in (1, 498, 499, 500, 501, 1000, 3000, 20000) for s in ("minimal", "repeat", "mixed", "spread", "stride")]
        for n in sorted(os.listdir(os.path.join(env.scratch, "shipped"))):
            if n.endswith(".tbl"):
                out += [{"real": n, "locale": loc, "part": i, "parts": 8} for loc in ["C"] + env.extra["locales"] for i in range(8 if "unidecode" in n else 1)]
        out += [{"exact": n, "how": h, "salt": n + i} for n in (8, 79, 80, 127, 128, 254, 255, 256, 257, 510, 511, 512, 513, 990, 998, 999, 1000) for i, h in enumerate(self.EXACT)]
        base = {"kind": "safe", "default": None, "lines": ["a$b", "ab$$", "x"], "forms": [1, 2, 3, 4]}
        for d in (None, "", "_", "dflt"):
            for k in range(12):
                out.append(dict(base, blocks=[[None, [[0x24, "_dollar_"]]], [None, [[0x61, "A"]]], [None, []]][:1 + k % 3], default=d, old=["old", "o"], forms=[9 * k + j for j in range(4)], locale="C", var="LC_ALL"))
        for loc in ["C", "POSIX", "xx_YY.none"] + env.extra["locales"]:
            for lang in LANGS:
                out.append(dict(base, blocks=[[None, [[0x24, "_dollar_"]]], [lang, [[0x24, "_money_"]]]], locale=loc, var="LC_ALL"))
                out.append(dict(base, blocks=[[lang, [[0x24, "_money_"]]], [None, [[0x61, "A"]]]], locale=loc, var="LANG"))
        return out

    EXACT = ["bare", "double", "single", "comment", "before", "between", "after", "default", "start", "blank"]

    def exact(self, env, w, case):
        """A line of a given length, and what comes after it."""
        n, how = case["exact"], case["how"]
        x = "".join("xyzw"[(i * i + case["salt"]) % 4] for i in range(n))
        a, default, first = "q", None, ""
        line = {"bare": "0x61 " + x[5:], "double": '0x61 "' + x[7:] + '"', "single": "0x61 '" + x[7:] + "'", "comment": "#0x62 " + x[6:], "before": " " * (n - 6) + "0x61 q", "between": "0x61" + " " * (n - 5) + "q",
                "after": "0x61 q" + " " * (n - 6), "default": "default " + x[8:], "start": "start" + " " * (n - 5), "blank": "\t" * n}[how]
        assert len(line) == n
        if how in ("bare", "double", "single"):
            a = line[5:].strip("'\"")
        elif how == "default":
            default = B(line[8:]) or None
        body = ["0x61 q", "0x62 end"]
        if how in ("default", "start"):
            text = [line] + ["start"] * (how == "default") + body + ["end"]
        else:
            text = ["start"] + ["0x61 q"] * (how in ("comment", "blank")) + [line, "0x62 end", "end"]
        with open(os.path.join(w, b"t.tbl"), "wb") as f:
            f.write(B("\n".join(text) + "\n" * (case["salt"] % 2)))
        with open(os.path.join(w, b"rc"), "wb") as f:
            f.write(b'sequence s { %s { filename "t.tbl"; }; };\n' % [b"safe", b"utf_8"][case["salt"] // 2 % 2])
        fl = [{"f": "safe", "table": model.Table({0x61: B(a), 0x62: b"end"}, default)}]
        given = [b"a", b"b", b"ab", b"cab", b"c"]
        stream.inline(env, w, ["-f", "rc", "-s", "s"], given, [model.clean(fl, g) for g in given])
        return Outcome(n > 100, ["a line of a given length", how])

    def run(self, env, case):
        w = env.fresh()
        if "exact" in case:
            return self.exact(env, w, case)
        if "big" in case:
            return self.big(env, w, case)
        if "real" in case:
            return self.real(env, w, case)
        envv = {"LC_ALL": None, case["var"]: case["locale"]}
        envv.update(zip([v for v in ("LC_ALL", "LC_CTYPE", "LANG") if v != case["var"]], case.get("rest", ())))
        # the first that is set and not empty counts
        ctype = next((v for v in map(envv.get, ("LC_ALL", "LC_CTYPE", "LANG")) if v), "C")
        if env.extra["locales"]:
            envv["LOCPATH"] = env.extra["locpath"]
        if ctype == "xx_YY.none":
            ctype = ""
        elif ctype == "POSIX":
            ctype = "C"
        rows = {}
        for lang, part in case["blocks"]:
            if applies(lang, ctype):
                rows.update({k: B(v) for k, v in part})
        table = model.Table(rows, B(case["default"]) if case["default"] else None)
        fl = [{"f": case["kind"], "table": table}]
        given = [B(t) for t in case["lines"]]
        want = [model.clean(fl, g) for g in given]
        texts, longest = set(), 0
        for i, form in enumerate(case["forms"]):
            text = block_text({"blocks": case["blocks"], "default": case["default"], "old": case.get("old"), "form": form})
            texts.add(text)
            longest = max(longest, max(map(len, text.split(b"\n"))))
            path = os.path.join(w, b"t%d.tbl" % i)
            with open(path, "wb") as f:
                f.write(text)
            with open(os.path.join(w, b"rc"), "wb") as f:
                f.write(b'sequence s { %s { filename "%s"; }; };\n' % (B(case["kind"]), path))
            try:
                stream.inline(env, w, ["-f", S(w) + "/rc", "-s", "s"], given, want, envv)
            except Violation as v:
                raise Violation("%s\nwith the table\n%s" % (v, S(text)))
        return Outcome(given != want and len(texts) > 1, [case["locale"], "languages" if any(b[0] for b in case["blocks"]) else "no languages"] + ["long lines"] * (longest > 1000))

    def real(self, env, w, case):
        path = os.path.join(env.scratch, "shipped", case["real"])
        if not os.path.isfile(path):
            return Outcome(False, ["no such table here"])
        with open(path, "rb") as f:
            text = f.read()
        rows, default = read_table(text, case["locale"])
        kind = "utf_8" if re.search("uni", case["real"]) else "safe" if "safe" in case["real"] or max(rows) < 0x80 else "iso8859_1"
        with open(os.path.join(w, b"rc"), "wb") as f:
            f.write(b'sequence s { %s { filename "%s"; }; };\n' % (B(kind), B(path)))
        one = utf8 if kind == "utf_8" else chr
        codes = [c for c in sorted(set(rows) | set(range(1, 0x180)) | {c + 1 for c in rows}) if c != 10 and not 0xD800 <= c < 0xE000 and (c < 256 or kind == "utf_8")]
        given = [B(one(c) + "z") for c in codes[case["part"]::case["parts"]]]
        fl = [{"f": kind, "table": model.Table(rows, default)}]
        envv = {"LC_ALL": case["locale"]}
        if case["locale"] in env.extra["locales"]:
            envv["LOCPATH"] = env.extra["locpath"]
        stream.inline(env, w, ["-f", S(w) + "/rc", "-s", "s"], given, [model.clean(fl, g) for g in given], envv)
        return Outcome(True, ["table of the distribution", case["locale"]])

    def big(self, env, w, case):
        n, salt, shape = case["big"], case["salt"], case["shape"]
        dice = conf.Dice(case["form"])
        rows, out = {}, ["start"]

        def put(code, text, how=None):
            rows[code] = text
            out.append(how or "%d %s" % (code, text))

        for i in range(n):
            if shape == "minimal":  # as short as rows can be
                put(1 + i % 9 if i < 9 else 0xA0 + i, "r", None)
            elif shape == "repeat":
                put(0xA0 + i % max(1, n // 3), "r%d" % i)
            elif shape == "spread":
                put(0xA0 + (i * 7919 + salt) % 0x10000 if i < 0x8000 else 0x20000 + i, "s%d" % i)
            elif shape == "stride":  # all in one slot of a table of 500
                put(0xA0 + 500 * (i % 2000) + i // 2000, "t%d" % i)
            else:
                c = 0xA0 + i
                put(c, "x%d" % i, conf.row_text(c, "x%d" % i, dice))
        out.append("end")
        text = "\n".join(out) + "\n"
        with open(os.path.join(w, b"t.tbl"), "wb") as f:
            f.write(B(text))
        with open(os.path.join(w, b"rc"), "wb") as f:
            f.write(b'sequence s { utf_8 { filename "%s/t.tbl"; }; };\n' % w)
        codes = sorted(c for c in rows if not 0xD800 <= c < 0xE000 and c != 10)
        if len(codes) > 1500:
            codes = codes[: 200] + codes[:: len(codes) // 1200] + codes[-100:]
        fl = [{"f": "utf_8", "table": model.Table({k: B(v) for k, v in rows.items()})}]
        given = [B(utf8(c) + "z") for c in codes] + [B(utf8(max(rows) + 1))]
        stream.inline(env, w, ["-f", S(w) + "/rc", "-s", "s"], given, [model.clean(fl, g) for g in given])
        return Outcome(n > 1, ["big", shape])
