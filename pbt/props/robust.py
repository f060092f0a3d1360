"""C20: nothing crashes, whatever it is given; sanitizers and libFuzzer."""

import os
import re
import resource
import shutil
import stat
import subprocess
import time

from hypothesis import strategies as st

from .. import gen

from .. import build, conf, engine, fsx, layers, names, stream, treerun
from ..engine import FuzzFailure, Outcome, Prop, Violation
from ..names import B, S
from .config import ARGS, EDIT, mutate
from .filters import table_spec
from .text import LANGS, block_text

TABLE_SNIPPETS = ["0x20 b\n0x20 " + "longer" * 50, "start", "end", "default", "start en", "0x41 x", "0x0 x", "0xFFFFFFFF y", "0x7FFFFFFF \"q\"", "-1 z", "2147483648 z", "99999999999999999999 z", "0x110000 x", "\"", "'", "0x42 \"open", "0x43 'open",
                  "0x44", "0x45 ", "#", "\0", "\n", "\n\n", "\t", "\xff", "0x", "x", "08 a", "0777777777777 b", "default \"\"", "default \"open", "default '", "start \"", "start ''", "0x46 \"\"", "0x47 ''", "0x48 \"a\" b",
                  "% %s %n", "%n%n%n%s", "end end", "start start", "0x49 " + "long" * 300, "default " + "d" * 1100, "start " + "en" * 600, "0" * 1050, " " * 1100, "\\", "\\u00e9", "0x50 \\\"", "0x51 " + "\\" * 15, "0x52 '" + "\"" * 15 + "'", "0x53 " + "\\" * 400]
CONFIG_MORE = ["\"" + "x" * 4200 + "\"", "\"a\0b\"", "\"\0\"", "4294967297", "99999999999999999999999", "length 0;", "length -1;", "\"%s%n\"", "\"" + "\\" * 50 + "\"", "\xff\xfe", "/*", "//", "'", "filename \"T\";",
               "sequence b { safe { filename \"T\"; }; };", "sequence default { utf_8 { filename T; }; max_length; };", "sequence \"\" { lower; };", "iso8859_1 { filename \"rc\"; };", "safe { filename \"/\"; };"]
UNITS = ["\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xfd\xbf\xbf\xbf\xbf\xbf\xbf\xbf", "\x80" * 9, "%41", "\xc3a", "\xe2\x82a", "\xff", "_-", ".a", "\xf0\x9f\x98\x80\x80\x80"]
PLACES = ["missing", "directory", "socket", "unreadable", "loop"]  # what may stand where the table should be
SEP = b"\x1e"
KINDS = ["safe", "iso8859_1", "utf_8", "utf_8"]


def raw(max_size=60):
    return st.binary(max_size=max_size).map(S)


def edits_of(snips):
    return st.lists(gen.one_of(EDIT, st.tuples(st.sampled_from(["replace", "insert", "insert", "append"]), st.integers(0, 400), st.integers(0, 400), st.sampled_from(snips)).map(list)), max_size=6)


@st.composite
def config_bytes(draw):
    how = draw(st.integers(0, 9))
    if how == 0:
        return draw(raw(200))
    if how == 1:
        return "".join(draw(st.lists(st.sampled_from(CONFIG_MORE + ["sequence", "{", "}", ";", "a", "\"x\"", "safe", "utf_8", "length", "9", " ", "\n", "default", "ignore", "filename"]), max_size=30)))
    items = draw(layers.items_strategy(4, min_items=1))
    form = draw(st.integers(0, 1 << 30))
    text = conf.config_text(items, form, lambda spec: "T" if isinstance(spec, dict) else spec)
    return S(mutate(B(text) if isinstance(text, str) else text, draw(edits_of(CONFIG_MORE))))


@st.composite
def table_bytes(draw):
    how = draw(st.integers(0, 9))
    if how == 0:
        return draw(raw(200))
    if how == 1:
        return "\n".join(draw(st.lists(st.sampled_from(TABLE_SNIPPETS), max_size=20)))
    kind = draw(st.sampled_from(KINDS))
    blocks = [[draw(st.sampled_from([None, None, None] + LANGS[:3])), draw(table_spec(kind, 10))["rows"]] for _ in range(draw(st.integers(1, 3)))]
    default = draw(st.sampled_from([None, None, "", "_", "dflt", "long_default_translation", "\xc2\xbf"]))
    text = block_text({"blocks": blocks, "default": default, "form": draw(st.integers(0, 1 << 30))})
    return S(mutate(text, draw(edits_of(TABLE_SNIPPETS))))


@st.composite
def stream_bytes(draw):
    how = draw(st.integers(0, 5))
    if how == 0:
        return draw(raw(300))
    if how == 1:
        piece = draw(gen.one_of(names.raw_name(), raw(4)))
        return piece * draw(st.integers(1, 3000 // (len(piece) or 1))) + draw(raw(8))
    lines = draw(st.lists(gen.one_of(names.raw_name(), names.long_name(), stream.words(names.ALL)), max_size=12))
    text = "\n".join(lines)
    if how == 2 and text:
        i = draw(st.integers(0, len(text) - 1))
        text = text[:i] + "\0" + text[i:]
    return text + draw(st.sampled_from(["", "\n"]))


WORDS = ["-n", "-r", "-v", "-vv", "-L", "-h", "-V", "-s", "-f", "-ss", "-rs", "--", "-", "--special", "--inline", "--dry-run", "--recursive", "--verbose", "--help", "--remove-trailing", "--inli", "--foo", "--special=x",
         "-Z", "-nrvZ", "rc", "in", "T", "tree", "a", "default", "", "%s%n", "utf_8", "missing", "tree/a b", "x" * 300, "\xff\xfe", "-ftree", "-frc", "-sa", "--inline=", "-?", "-Lv", "-d", "-b", "-l", "\n"]
WORDS = WORDS + [a for a in ARGS if "/" not in a and a not in WORDS]


class C20(Prop):
    id = "C20"
    quick, thorough = 500, 8000
    programs = ["detox", "check-table", "generate-builtin-table", "escape-utf-8"]
    wants = [("asan", p) for p in programs]
    rule = ("Config files, tables and streams written from models and then mutated at the level of tokens, or arbitrary bytes (NULs, overlong lines, huge numbers, unclosed quotes); trees; command lines of known and unknown "
            "options; through every program, built with ASan and UBSan or with MSan, each run to end without a report, a signal or a hang, and every failure status with a message. Then libFuzzer over "
            "(config, table, stream) in the same process, coverage-guided; what it finds is confirmed with the real program. Non-trivial: the program read at least one non-empty input of its own, or renamed.")
    assumptions = ["Memory limits of 1 GB per request are set in the sanitizer builds: a request beyond it counts as failed, as with a real shortage.",
                   "MSan part only where clang's MSan runs (a label says so)."]

    def prepare(self, env):
        stream.prepare_shipped(env)
        env.msan = False
        try:
            env.bins.update(env.build.compile([("msan", p) for p in ("detox", "check-table", "generate-builtin-table")]))
            p = subprocess.run([env.bin("detox", "msan"), "-L"], cwd=env.scratch, env={"MSAN_OPTIONS": "exitcode=99"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            env.msan = p.returncode == 0 or (p.returncode == 99 and b"WARNING: MemorySanitizer" in p.stderr)
        except (build.BuildError, OSError, subprocess.SubprocessError):
            pass

    def strategy(self, env):
        variant = st.sampled_from(["asan", "asan", "msan"])
        files = st.fixed_dictionaries({"kind": st.just("files"), "variant": variant, "config": gen.one_of(st.none(), config_bytes(), config_bytes()), "table": table_bytes(), "stream": stream_bytes(), "simple": st.sampled_from(KINDS),
                                       "use": st.sampled_from(["inline", "inline", "inline", "file", "list", "tree", "check", "check-b", "check-dlv", "generate"]), "s": st.sampled_from([None, None, None, "a", "b", "default"]),
                                       "locale": st.sampled_from([None, "en_US.UTF-8", "de_DE"]), "place": st.sampled_from(["file"] * 12 + PLACES)})
        shipped = st.fixed_dictionaries({"kind": st.just("shipped"), "variant": variant, "seq": st.sampled_from(treerun.SEQS), "stream": stream_bytes()})
        tree = treerun.plan_case(fsx.nodes(names.family(5), 6, 2), treerun.seq(), kind=st.just("tree"), variant=variant, dry=st.booleans())
        argv = st.fixed_dictionaries({"kind": st.just("argv"), "variant": variant, "prog": st.sampled_from(["detox", "detox", "detox", "inline-detox", "check-table", "generate-builtin-table"]),
                                      "words": st.lists(st.sampled_from(WORDS), max_size=6), "env": st.dictionaries(st.sampled_from(["HOME", "XDG_CONFIG_HOME", "DETOX_SEQUENCE", "LC_ALL", "LANG"]),
                                                                                                                      st.sampled_from(["", "a", ".", "tree", "x" * 5000, "%s%n", "\xff", "C.UTF-8", "utf_8"]), max_size=3)})
        escape = st.fixed_dictionaries({"kind": st.just("escape"), "variant": st.just("asan"), "stream": stream_bytes()})
        edge = st.fixed_dictionaries({"kind": st.just("edge"), "variant": variant, "seq": st.sampled_from(treerun.SEQS), "base": gen.one_of(st.integers(1, 1100), st.integers(1, 9000)), "unit": st.sampled_from(UNITS),
                                      "tail": st.sampled_from(["", "b", "\x80", ".", "\xc3"]), "program": st.sampled_from(["inline-detox"] * 3 + ["escape-utf-8"])})
        many = st.fixed_dictionaries({"kind": st.just("many"), "variant": variant, "n": st.integers(0, 120), "long": st.integers(1, 255), "levels": st.integers(0, 14), "seq": st.sampled_from(treerun.SEQS), "args": st.booleans()})
        return gen.one_of(edge, edge, many, many, *[files] * 12, *[shipped] * 3, *[tree] * 2, *[argv] * 4, *([escape] if env.tier == "thorough" else []))

    def fixed(self, env):
        out = []
        base = {"kind": "files", "variant": "asan", "config": None, "table": "", "stream": "a b\n", "simple": "utf_8", "use": "inline", "s": None, "locale": None}
        for use in ("inline", "check", "check-b", "check-dlv", "generate"):
            for v in ("asan", "msan"):
                for t in TABLE_SNIPPETS:
                    out.append(dict(base, use=use, variant=v, table="start\n0x20 _\n" + t + "\n0x41 aa\nend\n", simple="safe"))
                    out.append(dict(base, use=use, variant=v, table=t))
                for place in PLACES:
                    out.append(dict(base, use=use, variant=v, table="start\n0x41 a\n", place=place))
        for t in CONFIG_MORE:
            for use in ("inline", "list"):
                for text in (t, "sequence " + t, "sequence a { " + t + " };", "sequence a { max_length { length " + t + "; }; };", "ignore { filename " + t + "; };", "sequence a { lower; }; " + t):
                    out.append(dict(base, config=text, use=use, table="start\n0x20 _\nend\n", variant="asan" if use == "list" else "msan"))
        for k in ("utf_8", "safe", "iso8859_1"):  # what grows most, through tables where it is the only thing that grows
            for t in ("start\nend\n", "start\n0x61 x\nend\n", "default x\nstart\nend\n", "default xyzzyxyzzyxyzzyxyzzy\nstart\n0x61 x\nend\n", "start\n0xe9 xyzzyxyzzyxyzzy\nend\n"):
                for n in (1, 2, 3, 7, 30, 200):
                    text = "".join(x * n + "\n" + "a" + x * n + "a\n" for x in names.UTF8_BAD + ["\xf8\x80\x80\x80\x80", "\xe9", "\xc3\xa9", "a", "b"])
                    out.append(dict(base, simple=k, table=t, stream=text, variant="asan" if n != 7 else "msan"))
        for n in range(1, 18):  # and what grows about as much as the longest row
            text = "".join((x * k + "\n") for x in ["\xc0\x80", "\xe0\x80\x80", "\xf8\x80\x80\x80\x80", "\xc0\x80a", "\xe9", "\xc3\xa9", "\xff", "\0", "&"] for k in (1, 2, 3, 7, 40))
            for k in ("utf_8", "safe", "iso8859_1"):
                out.append(dict(base, simple=k, table="start\n0x61 " + "x" * n + "\nend\n", stream=text))
                out.append(dict(base, simple=k, table="start\n0xe9 " + "x" * n + "\nend\n", stream=text, use="file"))
        for s in treerun.SEQS:
            text = "".join(chr(c) + "\n" for c in range(256)) + "".join(chr(a) + chr(b) + "\n" for a in (0x25, 0xC0, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFC, 0xFE, 0xFF) for b in range(256))
            out.append({"kind": "shipped", "variant": "asan", "seq": s, "stream": text})
            out.append({"kind": "shipped", "variant": "msan", "seq": s, "stream": text})
            for n in list(range(1000, 1030)) + list(range(2005, 2020)):
                out.append({"kind": "shipped", "variant": "asan", "seq": s, "stream": "\xc3\xa9" * (n // 2) + "." * (n % 2)})
        for base in (128, 256, 512, 1024, 2048, 4096, 8192):
            for u in UNITS:
                for s in ("utf_8-only", "lower-only", "iso8859_1"):
                    out.append({"kind": "edge", "variant": "asan" if s != "iso8859_1" else "msan", "seq": s, "base": base, "unit": u, "tail": "", "program": "inline-detox"})
            out.append({"kind": "edge", "variant": "asan", "seq": "utf_8", "base": base, "unit": UNITS[-1], "tail": "", "program": "escape-utf-8"})
        for n in (0, 1, 15, 16, 17, 33, 64, 65, 500):
            for g in (1, 20, 255):
                out.append({"kind": "many", "variant": "asan", "n": n, "long": g, "levels": n % 15, "seq": "utf_8", "args": bool(n & 1)})
        out += [{"kind": "escape", "variant": "asan", "stream": t} for t in ("", "\0", "a\0b\n", "\xff\xfe", "\xf0\x9f", "\xf4\x90\x80\x80", "\xe2\x82\xac" * 900)]
        return out

    def finish(self, env, w, argv, variant, stdin=b"", envv=None, cwd=None):
        rc, out, err = env.run(argv, cwd or w, stdin=stdin, env=envv)
        if rc != 0 and not out and not err:
            raise Violation("%r ended with status %d and without a message" % (argv, rc))
        if b"Sanitizer" in err and b"failed to allocate" not in err and b"exceeds maximum" not in err:
            raise Violation("%r: %s" % (argv, S(err[:2000])))
        return rc, out, err

    def run(self, env, case):
        variant = case["variant"]
        if variant == "msan" and not env.msan:
            return Outcome(False, ["no MSan here"])
        return getattr(self, "run_" + case["kind"])(env, case, variant)

    @staticmethod
    def lay_out(w, case):
        config = case["config"]
        if config is None:
            config = 'sequence a { %s { filename "T"; }; };\n' % case["simple"]
        for n, t in (("rc", config), ("T", case["table"]), ("in", case["stream"])):
            with open(os.path.join(w, B(n)), "wb") as f:
                f.write(B(t))
        place, path = case.get("place", "file"), os.path.join(w, b"T")
        if place == "unreadable":
            os.chmod(path, 0)
        elif place != "file":
            os.unlink(path)
        if place == "directory":
            os.mkdir(path)
        elif place == "socket":
            os.mknod(path, stat.S_IFSOCK | 0o644)
        elif place == "loop":
            os.symlink(b"T", path)

    def run_files(self, env, case, variant):
        w = env.fresh()
        self.lay_out(w, case)
        use = case["use"]
        opts = ["-f", "rc"] + (["-s", case["s"]] if case["s"] and case["config"] else [])
        envv = {"LC_ALL": None, "LC_CTYPE": case["locale"]} if case["locale"] else None
        stdin = b""
        if use == "inline":
            argv, stdin = [env.bin("inline-detox", variant)] + opts, B(case["stream"])
        elif use == "file":
            argv = [env.bin("inline-detox", variant)] + opts + ["in"]
        elif use == "list":
            argv = [env.bin("detox", variant), "-Lv"] + opts
        elif use == "tree":
            os.mkdir(os.path.join(w, b"tree"))
            for n in case["stream"].split("\n")[:12]:
                n = B(n.replace("\0", "").replace("/", ""))[:255]
                if n not in (b"", b".", b".."):
                    with open(os.path.join(w, b"tree", n), "wb"):
                        pass
            argv = [env.bin("detox", variant), "-r", "-v"] + opts + ["tree"]
        elif use == "generate":
            argv = [env.bin("generate-builtin-table", variant), "T"]
        else:
            argv = [env.bin("check-table", variant)] + [x for x in ["-" + use[6:]] if len(x) > 1] + ["T"]
        rc, out, err = self.finish(env, w, argv, variant, stdin, envv)
        if case.get("place", "file") != "file" and rc == 0 and (use in ("check", "check-b", "check-dlv", "generate") or case["config"] is None and use != "list"):
            raise Violation("%r ended with status 0 although %r, the table, is a case of %r: %r" % (argv, "T", case["place"], err[:300]))
        return Outcome(bool(case["table"] if use in ("check", "check-b", "check-dlv", "generate") else case["config"] or case["table"]), [use, variant, "status %d" % rc])

    def run_shipped(self, env, case, variant):
        w = env.fresh()
        rc, out, err = self.finish(env, w, [env.bin("inline-detox", variant), "-s", case["seq"]], variant, B(case["stream"]))
        if rc != 0:
            raise Violation("status %d: %r" % (rc, err[:300]))
        return Outcome(bool(case["stream"]), ["shipped " + case["seq"], variant])

    def run_tree(self, env, case, variant):
        w = env.fresh()
        plan = treerun.Plan(w, case, treerun.filters_of(case["seq"]))
        opts = treerun.setup_seq(case["seq"], w) + plan.opts() + (["-n"] if case["dry"] else [])
        rc, out, err = self.finish(env, w, treerun.argv(env, opts, plan.args, variant=variant), variant, cwd=plan.cwd)
        return Outcome(b" -> " in out or len(case["tree"]) > 0, ["tree", variant])

    def run_argv(self, env, case, variant):
        w = env.fresh()
        self.lay_out(w, {"config": "sequence a { lower; };\nsequence b { safe; };", "table": "start\n0x41 x\nend\n", "stream": "A b\n"})
        os.mkdir(os.path.join(w, b"tree"))
        for n in ["a b"] + ARGS:
            n = n.replace("/", "")
            with open(os.path.join(w, b"tree", B(n)), "wb"):
                pass
        argv = [B(env.bin(case["prog"], variant))] + [B(x) for x in case["words"]]
        envv = dict(case["env"])
        if "LC_ALL" not in envv:
            envv["LC_ALL"] = None
        rc, out, err = self.finish(env, w, argv, variant, b"A b\n", envv)
        return Outcome(len(case["words"]) > 1, ["argv " + case["prog"], variant])

    def run_edge(self, env, case, variant):
        """Lines whose last bytes stand around a place where a buffer may end."""
        if case["program"] == "escape-utf-8":
            variant = "asan"
        elif variant == "msan" and not env.msan:
            variant = "asan"
        w = env.fresh()
        base = case["base"]
        text = "".join("a" * n + case["unit"] * 3 + case["tail"] + "\n" for n in range(max(0, base - 34), base + 8))
        for end in ("", "a" * (base - 1 - len(case["unit"])) + case["unit"][:-1], "a" * (base - 1) + case["unit"][0]):
            argv = [env.bin("inline-detox", variant), "-s", case["seq"]] if case["program"] == "inline-detox" else [env.bin("escape-utf-8", variant)]
            rc, out, err = self.finish(env, w, argv, variant, B(text + end))
            if rc != 0:
                raise Violation("status %d: %r" % (rc, err[:300]))
            text = ""
            if case["program"] != "inline-detox":
                break
        return Outcome(True, ["edge " + case["program"], variant])

    def run_many(self, env, case, variant):
        """Many entries, long names and deep paths."""
        w = env.fresh()
        top = os.path.join(w, b"t")
        os.mkdir(top)
        unit = ("d %" + "x" * 255)[: max(3, min(case["long"], 250))]
        here = os.getcwd()
        try:
            os.chdir(top)
            for level in range(case["levels"] + 1):
                for i in range(case["n"] if level in (0, case["levels"]) else 1):
                    with open(("f (%d) " % i).ljust(case["long"], "\xe9".encode("latin-1").decode("utf-8", "surrogateescape"))[:255], "wb"):
                        pass
                if level < case["levels"]:
                    os.mkdir(unit)
                    os.chdir(unit)
        finally:
            os.chdir(here)
        args = [b"t/" + n for n in sorted(os.listdir(top))] if case["args"] else [b"t"]
        if not args:
            return Outcome(False)
        rc, out, err = self.finish(env, w, [B(env.bin("detox", variant)), b"-r", b"-v", b"-s", B(case["seq"]), b"--"] + args, variant)
        if rc != 0:
            raise Violation("status %d: %r" % (rc, err[:300]))
        subprocess.run(["/bin/rm", "-rf", "--", top])
        return Outcome(case["n"] > 16 or case["levels"] > 4, ["many", variant])

    def run_escape(self, env, case, variant):
        w = env.fresh()
        rc, out, err = self.finish(env, w, [env.bin("escape-utf-8", variant)], variant, B(case["stream"]))
        return Outcome(bool(case["stream"]), ["escape-utf-8", variant])

    # -- libFuzzer

    RUNS = {"quick": (1, 6000, 40), "thorough": (12, 8000, 75)}  # rounds, runs per round, seconds per round

    def fuzz(self, env):
        info = {"evaluations": 0, "rounds": 0, "note": "libFuzzer, 8 processes, ASan and UBSan, corpus carried from round to round"}
        try:
            exe = self.compile(env)
        except build.BuildError as e:
            info["note"] = "the in-process fuzz target did not build, so only the generated cases count: " + str(e)[-300:]
            print("note: " + info["note"])
            return info
        corpus = os.path.join(env.scratch, "corpus")
        os.mkdir(corpus)
        os.chmod(corpus, 0o777)
        for i, data in enumerate(self.seeds(env)):
            with open(os.path.join(corpus, "seed%03d" % i), "wb") as f:
                f.write(data)
        words = os.path.join(env.scratch, "dict")
        with open(words, "w") as f:
            for t in sorted({t for t in CONFIG_MORE + TABLE_SNIPPETS + sorted(conf.KEYWORDS) if len(t) < 40}):
                f.write('"%s"\n' % "".join("\\x%02X" % b for b in B(t)) if t else "")
        rounds, runs, seconds = self.RUNS[env.tier]
        for r in range(rounds):
            children = {}
            for i in range(8):
                pid, fd = engine.forked(env, i, "f%d_%d" % (r, i), lambda i=i, r=r: self.session(env, exe, corpus, words, r, i, runs, seconds))
                children[pid] = fd
            bad = []
            for res in engine.collect(children, False):
                if "error" in res:
                    info["note"] += "; one session failed: " + res["error"][-200:]
                    continue
                info["evaluations"] += res["runs"]
                info["cov"] = max(info.get("cov", 0), res["cov"])
                info["features"] = max(info.get("features", 0), res["ft"])
                bad += res["crashes"]
            info["rounds"] += 1
            for data in sorted(bad, key=len)[:16]:
                case, message = self.confirm(env, B(data))
                if case:
                    raise FuzzFailure(case, message)
                info["not confirmed with the real program"] = info.get("not confirmed with the real program", 0) + 1
        info["corpus"] = len(os.listdir(corpus))
        return info

    def compile(self, env):
        b = env.build
        odir = os.path.join(b.root, "fuzz")
        os.makedirs(odir, exist_ok=True)
        names_ = {}
        mains = {}
        for prog in ("detox", "check_table", "generate_builtin_table"):
            for n in build.sources(prog):
                names_[n] = None
        for n in names_:
            with open(os.path.join(b.src, n), errors="replace") as f:
                if re.search(r"^(int\s+)?main\s*\(", f.read(), re.M):
                    mains[n] = {"detox.c": "detox_main", "check_table.c": "check_table_main", "check-table.c": "check_table_main", "generate_builtin_table.c": "generate_builtin_table_main",
                                "generate-builtin-table.c": "generate_builtin_table_main"}.get(n)
        from concurrent.futures import ThreadPoolExecutor

        objs = []
        with ThreadPoolExecutor(8) as pool:
            jobs = []
            for n in names_:
                obj = os.path.join(odir, n[:-2] + ".o")
                objs.append(obj)
                more = ["-Dmain=" + mains[n]] if mains.get(n) else []
                jobs.append(pool.submit(build.sh, build.VARIANTS["fuzz"] + b.flags() + ["-Dexit=fz_exit"] + more + ["-c", os.path.join(b.src, n), "-o", obj], b.src))
            obj = os.path.join(odir, "target.o")
            objs.append(obj)
            jobs.append(pool.submit(build.sh, build.VARIANTS["fuzz"] + ["-w", "-c", os.path.join(build.VERIF, "fuzz", "target.c"), "-o", obj]))
            for j in jobs:
                j.result()
        exe = os.path.join(odir, "target")
        build.sh(build.LINK["fuzz"] + objs + ["-lm", "-o", exe])
        return exe

    def seeds(self, env):
        d = os.path.join(env.scratch, "shipped")
        out = []
        read = lambda n: open(os.path.join(d, n), "rb").read()  # noqa: E731
        rc = read("detoxrc")
        tables = [t for t in sorted(os.listdir(d)) if t.endswith(".tbl")]
        text = "a b\n\xc3\xa9 (x)\n%41%20+.tar.gz\n--_x\n".encode("latin-1")
        out.append(b"\0" + rc[:3000] + SEP + SEP + text)
        out.append(b"\5" + rc[:3000] + SEP + SEP)
        for t in tables:
            body = read(t)
            small = b"start\n" + b"\n".join([x for x in body.split(b"\n") if x.startswith(b"0x")][:25]) + b"\nend\n"
            for flags in (0, 8, 16, 24, 6, 14, 22, 38, 7):
                out.append(bytes([flags]) + SEP + small + SEP + text)
        for t in TABLE_SNIPPETS:
            if len(t) < 60:
                for flags in (0, 16, 6, 7):
                    out.append(bytes([flags]) + SEP + b"start\n0x20 _\n" + B(t) + b"\nend\n" + SEP + text)
        for t in CONFIG_MORE:
            if len(t) < 200:
                out.append(b"\0sequence a { lower; safe { filename \"T\"; }; wipeup { remove_trailing; }; max_length { length 9; }; uncgi; };\n" + B(t) + b"\nignore { filename x; };\n" + SEP + b"start\n0x20 _\nend\n" + SEP + text)
        for flt in ("uncgi", "lower", "wipeup", "wipeup { remove_trailing; }", "max_length { length 7; }", "utf_8", "iso8859_1", "safe", "iso8859_1 { builtin cp1252; }"):
            out.append(b"\0sequence a { " + B(flt) + b"; };" + SEP + SEP + text)
        return out

    def session(self, env, exe, corpus, words, r, i, runs, seconds):
        home = env.home
        for n in ("work", "art", "corpus"):
            os.mkdir(os.path.join(home, n))
        for n in sorted(os.listdir(corpus)):
            shutil.copyfile(os.path.join(corpus, n), os.path.join(home, "corpus", n))
        resource.setrlimit(resource.RLIMIT_NOFILE, (1024, 1024))
        left, spent, crashes, cov, ft = runs, 0, [], 0, 0
        end = time.monotonic() + seconds
        seed = (env.seed * 1000003 + r * 101 + i * 7 + 1) & 0x7FFFFFFF
        for attempt in range(6):
            # a session leaks what the programs leave to exit, so it is cut into pieces
            n = min(left, 3000)
            budget = int(end - time.monotonic())
            if n <= 0 or budget <= 2:
                break
            p = subprocess.run([exe, "-seed=%d" % (seed + attempt), "-runs=%d" % n, "-max_total_time=%d" % budget, "-max_len=4096", "-timeout=20", "-rss_limit_mb=3000", "-malloc_limit_mb=1500", "-detect_leaks=0", "-close_fd_mask=3",
                                "-reload=0", "-use_value_profile=1", "-dict=" + words, "-artifact_prefix=" + os.path.join(home, "art") + "/", "-print_final_stats=1", "-verbosity=1", os.path.join(home, "corpus")],
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds + 120,
                               env={"FZ_DIR": os.path.join(home, "work"), "PATH": "/usr/bin:/bin", "LC_ALL": "C",
                                    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=16:max_allocation_size_mb=1024"})
            text = p.stdout.decode("latin-1")
            m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", text)
            done = int(m[-1]) if m else 0
            spent += done
            left -= max(done, 300)
            m = re.findall(r"cov: (\d+) ft: (\d+)", text)
            if m:
                cov, ft = max(cov, int(m[-1][0])), max(ft, int(m[-1][1]))
            for a in sorted(os.listdir(os.path.join(home, "art"))):
                path = os.path.join(home, "art", a)
                if not a.startswith("slow-unit"):
                    with open(path, "rb") as f:
                        crashes.append(S(f.read()))
                os.unlink(path)
            if crashes:
                break
        have = set(os.listdir(corpus))
        for n in os.listdir(os.path.join(home, "corpus")):
            if n not in have:
                shutil.copyfile(os.path.join(home, "corpus", n), os.path.join(corpus, n))
        return {"runs": spent, "cov": cov, "ft": ft, "crashes": crashes[:4]}

    @staticmethod
    def as_case(data):
        flags, parts = data[0], (data[1:].split(SEP, 2) + [b"", b""])[:3]
        low = flags & 7
        use = {6: "check", 7: "generate", 5: "list"}.get(low, "inline")
        if low == 6:
            more = "".join(c for bit, c in ((8, "d"), (16, "b"), (32, "l")) if flags & bit) + "v"
            use = "check-" + more
        return {"kind": "files", "variant": "asan", "config": S(parts[0]) or None, "table": S(parts[1]), "stream": S(parts[2]), "simple": KINDS[(flags >> 3) & 3], "use": use, "s": None, "locale": None}

    def confirm(self, env, data):
        if not data:
            return None, None
        case = self.as_case(data)
        ok, first = engine.confirm(self, env, case)
        if not ok:
            return None, None
        # shrink
        end = time.monotonic() + 40
        message = first["violation"]
        for field in ("stream", "table", "config"):
            step = len(case[field] or "")
            while step >= 1 and time.monotonic() < end:
                i = 0
                while i < len(case[field] or "") and time.monotonic() < end:
                    t = case[field][:i] + case[field][i + step:]
                    new = dict(case, **{field: t})
                    got = None if field == "config" and not t else engine.isolated(self, env, new)["violation"]
                    if got:
                        case, message = new, got
                    else:
                        i += step
                step //= 2
        return case, message
