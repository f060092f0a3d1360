"""Checks of the table tools, of builtin against shipped data, and of escaping."""

import os
import re
import shutil
import stat
import subprocess

from hypothesis import strategies as st

from .. import gen

from ..build import sources
from .. import conf, fsx, model, names, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S
from ..treerun import SEQS
from .filters import table_spec, utf8
from .text import LANGS, block_text, read_table

SHIPPED_TABLES = ["safe", "iso8859_1", "cp1252", "unicode"]


def gcc(w, *args):
    return subprocess.run(["gcc", "-std=gnu11", "-w", "-O0", *args], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def compiler(env, w, source, flags=()):
    """Compiles a C source and returns the program's output."""
    p = gcc(w, *flags, source, "-o", "prog")
    if p.returncode != 0:
        raise Violation("the output does not compile:\n" + S(p.stdout[:1500]))
    rc, out, err = env.run([os.path.join(w, b"prog")], w)
    if rc != 0:
        raise Violation("the compiled program ended with status %d" % rc)
    return out


def unescape(text):
    """A C string of generate-builtin-table, which may hold raw high bytes."""
    def one(m):
        if m[1]:
            return bytes([int(m[1], 8) & 255])
        return bytes([SIMPLE[S(m[2])]]) if S(m[2]) in SIMPLE else m[2]

    return re.sub(rb"\\(?:([0-7]{1,3})|(.))", one, text, flags=re.S)


class C21(Prop):
    id = "C21"
    quick, thorough = 330, 7000
    wants = [("plain", "detox"), ("plain", "check-table"), ("plain", "generate-builtin-table")]
    rule = ("All codes of every builtin table against the shipped table file (each in context, over the whole Unicode range for the unicode table); all shipped sequences on generated names and trees "
            "with the builtin configuration against etc/detoxrc given by -f or installed; generated tables (see C17) through generate-builtin-table, whose output is read back and, for a share "
            "of the cases, compiled and run, and through check-table with its options, against a dictionary. Non-trivial: names changed, or the table had two rows or more.")

    def prepare(self, env):
        stream.prepare_shipped(env)

    def strategy(self, env):
        @st.composite
        def table(draw):
            kind = draw(st.sampled_from(["safe", "iso8859_1", "utf_8", "utf_8"]))
            blocks = []
            for _ in range(draw(st.integers(1, 3))):
                lang = draw(st.sampled_from([None, None, None] + LANGS[:4]))
                blocks.append([lang, draw(table_spec(kind, 10))["rows"]])
            rows = [r[0] for b in blocks for r in b[1]]
            if rows and draw(st.integers(0, 3)) == 0:
                blocks.append([None, [[k, draw(conf.replacement().map(conf.fixable))] for k in rows[:3]]])
            default = draw(st.sampled_from([None, None, "", "_", "dflt", "\xc2\xbf", "x y", "'", "\"", "\"" * 9, "\\" * 9, "a\\b", "long_default_translation"]))
            return {"kind": "table", "blocks": blocks, "default": default, "form": draw(st.integers(0, 1 << 30)), "flags": draw(st.lists(st.sampled_from("bdlv"), unique=True)),
                    "compile": draw(st.integers(0, 19)) == 0, "name": draw(st.sampled_from(["t.tbl", "a b.tbl", "x"]))}

        same = st.fixed_dictionaries({"kind": st.just("same"), "seq": st.sampled_from(SEQS + [None]), "lines": st.lists(gen.one_of(names.raw_name(), stream.words(names.ALL)), min_size=4, max_size=20),
                                      "how": st.sampled_from(["-f", "installed", "home"]), "tree": fsx.nodes(names.family(4), 5, 2), "r": st.booleans()})
        tables = table()
        return gen.one_of(tables, tables, tables, same)

    def fixed(self, env):
        out = [{"kind": "listing", "how": h} for h in ("-f", "installed", "home")]
        for t in SHIPPED_TABLES:
            for a in range(16 if t == "unicode" else 1):
                out.append({"kind": "codes", "table": t, "part": a, "parts": 16 if t == "unicode" else 1})
            out.append({"kind": "shipped", "table": t})
        for t in sorted(os.listdir(os.path.join(env.scratch, "shipped"))):
            if t.startswith("legacy_") and t.endswith(".tbl"):
                out.append({"kind": "shipped", "table": t[:-4]})
        for n in (255, 256, 257, 511, 512, 513, 1000):
            out.append({"kind": "table", "blocks": [[None, [[k, "r%x" % k] for k in range(1, n + 1)]]], "default": None, "form": 0, "flags": [["b"], ["b", "d"], ["d", "v"], ["l"]][n % 4], "compile": True, "name": "n.tbl"})
        for tool in (["check-table"], ["check-table", "-d"], ["check-table", "-bl"], ["check-table", "-y"], ["generate-builtin-table"]):
            for what in ("none", "missing", "directory", "socket", "unreadable", "dangling", "row 0"):
                out.append({"kind": "refused", "tool": tool, "what": what})
        out.append({"kind": "table", "blocks": [[None, []]], "default": "x", "form": 1, "flags": ["b"], "compile": False, "name": "n.tbl"})
        return out

    def run(self, env, case):
        return getattr(self, case["kind"])(env, env.fresh(), case)

    # -- builtin against shipped

    def codes(self, env, w, case):
        t = case["table"]
        shipped = os.path.join(env.scratch, "shipped", t + ".tbl")
        kind = {"safe": "safe", "unicode": "utf_8"}.get(t, "iso8859_1")
        with open(os.path.join(w, b"rc"), "w") as f:
            f.write('sequence b { %s { builtin "%s"; }; };\nsequence f { %s { filename "%s"; }; };\n' % (kind, t, kind, shipped))
        if t == "unicode":
            per = 0x110000 // case["parts"]
            cps = range(case["part"] * per, (case["part"] + 1) * per)
            lines = []
            for lo in range(cps[0], cps[-1] + 1, 64):
                lines.append("".join("%s|" % utf8(c) for c in range(lo, min(lo + 64, cps[-1] + 1)) if c not in (0, 10)))
        else:
            lines = ["%sx%s" % (chr(c), chr(c)) for c in range(1, 256) if c != 10]
        data = b"".join(B(x) + b"\n" for x in lines)
        outs = []
        for s in "bf":
            rc, out, err = env.run([env.bin("inline-detox"), "-f", "rc", "-s", s], w, stdin=data, timeout=120)
            if rc != 0:
                raise Violation("status %d: %r" % (rc, err[:300]))
            outs.append(out.split(b"\n"))
        for line, a, b in zip(lines, *outs):
            if a != b:
                raise Violation("the builtin table %s and %s.tbl differ: %r becomes %r and %r" % (t, t, line, a, b))
        if len(outs[0]) != len(outs[1]):
            raise Violation("numbers of lines differ: %d and %d" % (len(outs[0]), len(outs[1])))
        return Outcome(True, ["codes of " + t])

    def routes(self, env, w, how):
        """(options, environment) for the shipped config file."""
        rc = os.path.join(env.scratch, "shipped", "detoxrc")
        if how == "-f":
            return ["-f", rc], {}
        if how == "home":
            os.mkdir(os.path.join(w, b"home"))
            shutil.copyfile(rc, os.path.join(w, b"home/.detoxrc"))
            return [], {"HOME": S(w) + "/home"}
        os.mkdir(os.path.join(w, b"inst"))
        os.mkdir(os.path.join(w, b"inst", b"pbtetc"))
        shutil.copyfile(rc, os.path.join(w, b"inst", b"pbtetc", b"detoxrc"))
        return [], {}

    def listing(self, env, w, case):
        opts, envv = self.routes(env, w, case["how"])
        other = os.path.join(w, b"inst") if case["how"] == "installed" else w
        for more in ([], ["-v"], ["-s", "utf_8"]):
            a = env.run([env.bin(), "-L"] + more, w)
            b = env.run([env.bin(), "-L"] + opts + more, other, env=envv)
            strip = lambda r: [x for x in r[1].split(b"\n") if b"source file" not in x]  # noqa: E731
            if a[0] or b[0] or strip(a) != strip(b):
                diff = [(x, y) for x, y in zip(strip(a), strip(b)) if x != y]
                raise Violation("-L %s differs between the builtin configuration and etc/detoxrc: %r" % (more, diff[:3] or (len(strip(a)), len(strip(b)))))
        return Outcome(True, ["listing"])

    def same(self, env, w, case):
        opts, envv = self.routes(env, w, case["how"])
        other = os.path.join(w, b"inst") if case["how"] == "installed" else w
        sel = ["-s", case["seq"]] if case["seq"] else []
        data = b"".join(B(x) + b"\n" for x in case["lines"])
        a = env.run([env.bin("inline-detox")] + sel, w, stdin=data)
        b = env.run([env.bin("inline-detox")] + opts + sel, other, stdin=data, env=envv)
        if a[:2] != b[:2]:
            for x, y, z in zip(data.split(b"\n"), a[1].split(b"\n"), b[1].split(b"\n")):
                if y != z:
                    raise Violation("%r becomes %r with the builtin configuration and %r with etc/detoxrc" % (x, y, z))
            raise Violation("results differ between the builtin configuration and etc/detoxrc: %r, %r" % (a, b))
        found = []
        tree = case["tree"] + [["{arch}", "d", [["in side", "f", 1, 0o644]], 0o755]] if not any(n[0] == "{arch}" for n in case["tree"]) else case["tree"]
        for where, o, e in ((w, [], None), (other, opts, envv)):
            root = os.path.join(where, b"tr ee" if o or where is not w else b"tr  ee")
            while os.path.lexists(root):
                root += b"e"
            os.mkdir(root)
            fsx.materialize(tree, root)
            ino = os.lstat(root).st_ino
            rc, out, err = env.run([env.bin()] + o + sel + (["-r"] if case["r"] else []) + [os.path.join(root, b".")], where, env=e)
            now = fsx.find(where, ino)
            found.append((rc, sorted((os.path.relpath(x.path, now), x.kind, x.data) for x in fsx.snapshot(now))))
        if found[0] != found[1]:
            # which of several entries gets a name they compete for is left to the listing order
            a, b = ({p for p, _, _ in f[1]} for f in found)
            if a != b:
                raise Violation("trees differ between the builtin configuration and etc/detoxrc: %r, %r" % (sorted(a - b), sorted(b - a)))
        return Outcome(a != data, ["sequence " + str(case["seq"])])

    # -- the tools

    def shipped(self, env, w, case):
        path = os.path.join(env.scratch, "shipped", case["table"] + ".tbl")
        m = model.BUILTIN.get(case["table"])
        if m is None:
            if not os.path.isfile(path):
                return Outcome(False, ["no such table here"])
            with open(path, "rb") as f:
                m = model.Table(*read_table(f.read(), "C"))
        self.tools(env, w, path, [[k, v] for k, v in m.rows.items()], m.default, [], True, None)
        self.tools(env, w, path, [[k, v] for k, v in m.rows.items()], m.default, ["b", "d"], False, None)
        return Outcome(True, ["shipped table"])

    def table(self, env, w, case):
        path = os.path.join(w, B(case["name"]))
        text = block_text(case)
        with open(path, "wb") as f:
            f.write(text)
        rows = [[k, B(v)] for lang, part in case["blocks"] if lang is None for k, v in part]
        default = B(case["default"]) if case["default"] else None
        try:
            ran = self.tools(env, w, path, rows, default, case["flags"], case["compile"], any(lang for lang, _ in case["blocks"]))
        except Violation as v:
            raise Violation("%s\nfor the table\n%s" % (v, S(text)))
        return Outcome(len(rows) > 1, ["table", "repeated rows" if len(dict(map(tuple, rows))) < len(rows) else "distinct rows"] + ([ran] if ran else []))

    def refused(self, env, w, case):
        """No table at all, or one that cannot be used."""
        tool, what = case["tool"], case["what"]
        path = os.path.join(w, b"the table")
        with open(path, "wb") as f:
            f.write(b"start\n0 x\nend\n" if what == "row 0" else b"start\n0x41 x\nend\n")
        if what == "unreadable":
            os.chmod(path, 0)
        elif what not in ("none", "row 0"):
            os.unlink(path)
        if what == "directory":
            os.mkdir(path)
        elif what == "socket":
            os.mknod(path, stat.S_IFSOCK | 0o644)
        elif what == "dangling":
            os.symlink(b"nowhere", path)
        rc, out, err = env.run([env.bin(tool[0])] + tool[1:] + ([] if what == "none" else [path]), w)
        if rc <= 0:
            raise Violation("%s: status %d for a table that is a case of %r; %r, %r" % (tool, rc, what, out[:200], err[:200]))
        if not out and not err or what != "none" and not err:
            raise Violation("%s: no message for a table that is a case of %r" % (tool, what))
        if tool[0] == "generate-builtin-table" and out:
            raise Violation("%s prints %r for a table that is a case of %r" % (tool, out[:200], what))
        return Outcome(True, ["refused " + what])

    def tools(self, env, w, path, rows, default, flags, compiled, languages):
        final = {}
        for k, v in rows:
            final[k] = v
        # check-table
        order = sorted(flags, key=lambda f: len(path) * ord(f) % 7)
        rc, out, err = env.run([env.bin("check-table")] + (["-" + "".join(order)] if order else []) + [path], w)
        if rc != 0 or err:
            raise Violation("check-table %s: status %d, %r" % (order, rc, err[:300]))
        dump, figures, empty = {}, {}, 0
        for line in out.split(b"\n"):
            m = re.match(rb"index: (\d+), key: 0x([0-9a-f]+), data: (.*)$", line, re.S)
            if m:
                if int(m[2], 16) in dump:
                    raise Violation("check-table -d lists a code twice: %r" % line)
                dump[int(m[2], 16)] = m[3]
            elif re.match(rb"index: \d+, empty$", line):
                empty += 1
            else:
                m = re.match(rb"([a-z ]+): (.*)$", line, re.S)
                if m:
                    figures[S(m[1])] = m[2]
        plain = not any(b"\n" in v for v in final.values())
        if "d" in flags and plain and dump != final:
            raise Violation("check-table -d: %r instead of %r" % (sorted(dump.items())[:20], sorted(final.items())[:20]))
        if int(figures["used"]) != len(final):
            raise Violation("check-table reports %s rows in use instead of %d" % (S(figures["used"]), len(final)))
        have = int(figures["available"])
        if have < len(final) or figures["used percent"] != b"%.2f" % (len(final) * 100.0 / have):
            raise Violation("check-table: %r" % figures)
        if "d" in flags and "v" in flags and empty != have - len(final):
            raise Violation("check-table -dv lists %d empty rows instead of %d" % (empty, have - len(final)))
        if int(figures["overwrites"]) != len(rows) - len(final):
            raise Violation("check-table reports %s overwrites instead of %d" % (S(figures["overwrites"]), len(rows) - len(final)))
        longest = {max([len(v) for v in final.values()], default=0), max([len(v) for _, v in rows], default=0)}
        if int(figures["longest entry"]) not in longest:
            raise Violation("check-table reports a longest entry of %s instead of %d" % (S(figures["longest entry"]), max(longest)))
        if figures["default translation"] != (default if default is not None else b"(null)"):
            raise Violation("check-table reports the default %r instead of %r" % (figures["default translation"], default))
        if int(figures["maximum key"], 16) != max(final, default=0):
            raise Violation("check-table reports a maximum key of %s instead of %x" % (S(figures["maximum key"]), max(final, default=0)))
        # generate-builtin-table; \u and \U are passed on as escapes on purpose
        if any(re.search(rb"\\[uU]", v) for v in list(final.values()) + [default or b""]):
            return
        rc, out, err = env.run([env.bin("generate-builtin-table"), path], w)
        if rc != 0:
            raise Violation("generate-builtin-table: status %d, %r" % (rc, err[:300]))
        got = {}
        for m in re.finditer(rb'\{ \.key\s*= (0x[0-9a-fA-F]+), \.data = "((?:[^"\\]|\\.)*)" \}', out, re.S):
            k = int(m[1], 16)
            if k in got:
                raise Violation("generate-builtin-table lists 0x%x twice" % k)
            got[k] = unescape(m[2])
        if got != final:
            raise Violation("generate-builtin-table holds %r instead of %r" % (sorted(set(got.items()) - set(final.items()))[:5], sorted(set(final.items()) - set(got.items()))[:5]))
        m = re.search(rb'\.default_translation = (NULL|"((?:[^"\\]|\\.)*)"),', out)
        if not m or (None if m[2] is None else unescape(m[2])) != default:
            raise Violation("generate-builtin-table: default %r instead of %r" % (m and m[0], default))
        for field, value in ((b"used", len(final)), (b"length", len(final)), (b"max_key", max(final, default=0)), (b"overwrites", len(rows) - len(final)), (b"builtin", 1)):
            m = re.search(rb"\." + field + rb"\s*= (\w+),", out)
            if not m or int(m[1], 0) != value:
                raise Violation("generate-builtin-table: .%s is %r instead of %d" % (S(field), m and m[1], value))
        if compiled:
            return self.compile(env, w, out, final, default)

    def compile(self, env, w, code, final, default):
        if not final:
            return
        src = env.build.src
        # the includes are those of the file that holds such code in detox
        with open(os.path.join(env.build.src, "builtin_table.c"), "rb") as f:
            head = b"".join(x for x in f if x.startswith(b"#include"))
        flags = ["-I" + src, "-DHAVE_CONFIG_H", "-include", src + "/config.h"]
        with open(os.path.join(w, b"gen.c"), "wb") as f:
            f.write(head + code)
        p = gcc(w, *flags, "-c", "gen.c", "-o", "gen.o")
        if p.returncode != 0:
            raise Violation("the output does not compile:\n" + S(p.stdout[:1500]))
        with open(os.path.join(w, b"use.c"), "wb") as f:
            f.write(b"""#include <stdio.h>
#include <stdlib.h>
#include "table.h"
table_t *load_builtin_NEW_table(void);
int main(void) {
    table_t *t = load_builtin_NEW_table();
    for (unsigned k = 1; k <= 0x%x; k++) {
        char *s = table_get(t, k);
        if (s) { printf("%%x ", k); while (*s) printf("%%02x", (unsigned char) *s++); printf("\\n"); }
    }
    printf("default ");
    if (t->default_translation) { char *s = t->default_translation; printf("="); while (*s) printf("%%02x", (unsigned char) *s++); }
    printf("\\n");
    return 0;
}
""" % min(max(final), 0x20000))
        # where the functions used here do not exist in this form, the text of the table (above) decides alone
        tool = [src + "/" + n for n in sources("check_table")]
        if gcc(w, *flags, "-c", "use.c", "-o", "use.o").returncode or gcc(w, *flags, "-Dmain=main_of_the_tool", *tool, "-x", "none", "gen.o", "use.o", "-o", "prog", "-lm").returncode:
            return "not linked"
        rc, out, err = env.run([os.path.join(w, b"prog")], w)
        if rc != 0:
            raise Violation("a program with the generated table ended with status %d" % rc)
        want = b"".join(b"%x %s\n" % (k, B(v.hex())) for k, v in sorted(final.items()) if k <= 0x20000)
        want += b"default " + (b"" if default is None else b"=" + B(default.hex())) + b"\n"
        if out != want:
            raise Violation("the generated table gives %r instead of %r" % (out[:300], want[:300]))
        return "linked and run"


# ---------------------------------------------------------------------- escaping


SIMPLE = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "e": 27, '"': 34, "'": 39, "?": 63, "\\": 92}
TRIGRAPH = re.compile(r"\?\?[=/'()!<>-]")


def c_literal(text):
    """The bytes of a C string literal with this text between its quotes."""
    if TRIGRAPH.search(text):
        raise Violation("the output holds a trigraph: %r" % text[:80])
    out = bytearray()
    i = 0
    while i < len(text):
        c = text[i]
        if c == '"' or not " " <= c <= "~":
            raise Violation("%r stands in the output unescaped, in %r" % (c, text[max(0, i - 20):i + 20]))
        if c != "\\":
            out.append(ord(c))
            i += 1
            continue
        m = re.compile(r"\\(?:([0-7]{1,3})|x([0-9a-fA-F]+)|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|([abtnvfre\"'?\\]))").match(text, i)
        if not m:
            raise Violation("bad escape in the output: %r" % text[i:i + 12])
        i = m.end()
        if m[1] or m[2]:
            v = int(m[1], 8) if m[1] else int(m[2], 16)
            if v > 255:
                raise Violation("escape out of range: %r" % m[0])
            out.append(v)
        elif m[5]:
            out.append(SIMPLE[m[5]])
        else:
            v = int(m[3] or m[4], 16)
            if 0xD800 <= v < 0xE000 or v > 0x10FFFF or v < 0xA0 and v not in (0x24, 0x40, 0x60):
                raise Violation("C does not allow %r" % m[0])
            out += chr(v).encode()
    return bytes(out)


class C25(Prop):
    id = "C25"
    quick, thorough = 40, 1500
    wants = [("plain", "escape-utf-8")]
    rule = ("Text of all planes (every code point in quick runs, alone and next to hexadecimal and octal digits, question marks and quotes), in lines of up to several thousand bytes, with and "
            "without a last newline, through escape-utf-8; its output is read by a C literal reader written from the standard and, for a share, compiled with gcc and trigraphs on. "
            "Non-trivial: something was escaped.")

    def strategy(self, env):
        special = st.sampled_from(["?", "??", "??=", "??/", "\\", "\"", "'", "\x07", "\t", "\x1b", "\x01", "\x7f", "\x80", "\x9f", "\xa0", "\xa1", "\xff", "0", "7", "8", "a", "F", "u", "x41", "U0001F600", "%",
                                   "$", "@", "`", "\r", "\ud800", "\udfff", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "é", "€", "😀", ".", "..", " ", "\n"])
        anyc = st.characters().filter(lambda c: c not in "\0\n")
        sur = st.integers(0xD800, 0xDFFF).map(chr)
        piece = gen.one_of(special, special, anyc, anyc, sur, st.text(anyc, min_size=1, max_size=8))
        line = st.lists(piece, max_size=20).map("".join)
        long = st.tuples(piece, st.integers(100, 1200), line).map(lambda t: t[2][:3] + t[0] * t[1] + t[2])
        text = st.lists(gen.one_of(*[line] * 12, long), max_size=60).map("\n".join)
        return st.fixed_dictionaries({"text": text.map(lambda t: S(t.encode("utf-8", "surrogatepass"))), "compile": st.integers(0, 24).map(lambda n: n == 0)})

    def fixed(self, env):
        out = []
        for lo in list(range(0, 0x3000, 0x1000)) + list(range(0x3000, 0x110000, 0x6000)):
            pat = ["%s", "%s0", "%sf", "?%s?"][lo // 0x6000 % 4]
            if lo < 0x3000:
                pat = "%s|%s0|%s7|%sf|%sF|?%s?|%s%s|"
            ls = []
            for a in range(lo, min(lo + (0x1000 if lo < 0x3000 else 0x6000), 0x110000), 32):
                ls.append("".join(pat.replace("%s", utf8(c)) for c in range(a, a + 32) if c not in (0, 10)))
            out.append({"text": "\n".join(ls), "compile": lo < 0x3000 or lo in (0x9000, 0xF000, 0x1B000)})
        return out

    def run(self, env, case):
        w = env.fresh()
        data = B(case["text"])
        rc, out, err = env.run([env.bin("escape-utf-8")], w, stdin=data, timeout=60)
        if rc != 0 or err:
            raise Violation("status %d: %r" % (rc, err[:300]))
        given, got = data.split(b"\n"), S(out).split("\n")
        if len(given) != len(got):
            raise Violation("%d lines became %d" % (len(given), len(got)))
        for a, b in zip(given, got):
            back = c_literal(b)
            if back != a:
                k = next((i for i in range(min(len(a), len(back))) if a[i] != back[i]), min(len(a), len(back)))
                raise Violation("%r comes back as %r, from %r" % (a[max(0, k - 10):k + 10], back[max(0, k - 10):k + 10], b[:200]))
        if case["compile"]:
            with open(os.path.join(w, b"t.c"), "wb") as f:
                f.write(b"#include <stdio.h>\nint main(void) {\n")
                f.write(b"".join(b'static const char s%d[] = "%s"; fwrite(s%d, 1, sizeof s%d - 1, stdout); putchar(10);\n' % (i, B(x), i, i) for i, x in enumerate(got)))
                f.write(b"return 0; }\n")
            back = compiler(env, w, "t.c", ["-trigraphs"])
            if back != b"".join(x + b"\n" for x in given):
                for x, y in zip(given, back.split(b"\n")):
                    if x != y:
                        raise Violation("gcc reads %r instead of %r" % (y[:100], x[:100]))
                raise Violation("gcc reads something else")
        return Outcome(out != data, ["compiled" if case["compile"] else "read"])
