"""C31: a run depends on nothing but what it is documented to depend on."""

import os
import pty
import random
import re
import signal
import stat
import subprocess
import threading
import time
import tty

from hypothesis import strategies as st

from .. import conf, engine, fsx, gen, names, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S
from ..treerun import SEQS, Plan, filters_of, plan_case, seq, setup_seq
from .filters import fits, table_spec

# none of these is documented to matter (LC_ALL is always set, and so decides)
VARS = ["LANG", "LANGUAGE", "LC_CTYPE", "LC_MESSAGES", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "TZ", "TERM", "COLUMNS", "LINES", "TMPDIR", "PWD", "OLDPWD", "USER", "LOGNAME", "SHELL",
        "EDITOR", "DETOX", "DETOXRC", "DETOX_RC", "DETOX_CONFIG", "DETOX_OPTIONS", "DETOX_OPTS", "DETOX_TABLE", "DETOX_TABLES", "DETOX_DATADIR", "DETOX_IGNORE", "DETOX_DEBUG", "DETOX_VERBOSE", "DETOX_DRY_RUN", "DETOX_RECURSIVE",
        "DETOX_SPECIAL", "DETOX_INLINE", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CONFIG_DIRS", "XDG_CACHE_HOME", "NO_COLOR", "CLICOLOR_FORCE", "COLORTERM", "DEBUG", "VERBOSE", "IFS", "PATH", "SUDO_USER",
        "SYSCONFDIR", "DATADIR", "sequence", "_", "S", ""]
IF_FILE = ["HOME", "XDG_CONFIG_HOME"]  # do not matter with -f
IF_NAMED = ["DETOX_SEQUENCE"]  # does not matter with -s
VALUES = ["", "0", "1", "LURE", "LURE/detoxrc", "LURE/detox", "/nonexistent", "de_DE.UTF-8", "C", "lower-only", "s", "missing", "dumb", "xterm-256color", "7", "UTC", "-r", "--inline", "\xff\xfe", "x" * 5000]


def words(env):
    """What the names of further variables may be: words of capitals in the program itself."""
    out = os.path.join(env.home or env.scratch, "words-%d" % os.getpid())
    try:
        subprocess.run(["objcopy", "-O", "binary", "-j", ".rodata", env.bin("detox"), out], stderr=subprocess.DEVNULL)
        with open(out, "rb") as f:
            found = set(re.findall(rb"(?<=\0)[A-Z][A-Z0-9_]{2,40}(?=\0)", f.read()))
        os.unlink(out)
    except OSError:
        found = set()
    known = set(map(B, IF_FILE + IF_NAMED + VARS)) | {b"POSIXLY_CORRECT", b"LC_ALL"}
    return sorted(S(x) for x in found - known if not x.startswith(b"LC_"))


def context(more=()):
    return st.fixed_dictionaries({
        "vars": st.lists(st.tuples(st.sampled_from(VARS + list(more) + (IF_FILE + IF_NAMED) * 4), st.sampled_from(VALUES)).map(list), max_size=5),
        "umask": st.sampled_from([None, None, 0, 0o77, 0o777]), "nice": st.sampled_from([0, 0, 5]), "fds": st.sampled_from([0, 0, 1, 7, 60]),
        "stdin": st.sampled_from(["null", "closed", "data", "data", "pipe", "tty", "dir", "writeonly"]),
        "feed": st.sampled_from(["file", "offset", "pipe 1", "pipe 7", "pipe 500", "pipe 100000", "append"]),
        "stdout": st.sampled_from(["file", "pipe", "tty", "append"]), "stderr": st.sampled_from(["file", "pipe", "tty", "closed", "null"]),
        "signals": st.sampled_from(["", "", "ignore", "block"]), "session": st.booleans(), "cwd": st.booleans(), "dress": st.one_of(st.none(), st.integers(0, 1 << 30))})


PLAIN = {"vars": [], "umask": None, "nice": 0, "fds": 0, "stdin": "null", "feed": "file", "stdout": "file", "stderr": "file", "signals": "", "session": False, "cwd": False, "dress": None}


def lure(w):
    """A folder full of configuration that must not be found."""
    d = os.path.join(w, b"lure")
    os.makedirs(os.path.join(d, b"detox"))
    text = "".join('sequence "%s" { lower; uncgi; safe { filename "%s/lure.tbl"; }; };\n' % (n, S(d)) for n in SEQS + ["s", "missing"]) + 'ignore { filename "a"; filename "t"; };\n'
    for n in (".detoxrc", "detoxrc", "detox/detoxrc", "rc"):
        with open(os.path.join(d, B(n)), "w") as f:
            f.write(text)
    for n in ("lure.tbl", "safe.tbl", "unicode.tbl", "iso8859_1.tbl", "cp1252.tbl", "detox/safe.tbl"):
        with open(os.path.join(d, B(n)), "w") as f:
            f.write('default "!"\nstart\n0x61 "lured"\n0x20 "lured"\nend\n')
    return d


class Call:
    """One run in some context."""

    def __init__(self, env, w, ctx, named=False, filed=False, feed=None, base=None):
        self.env, self.w, self.ctx, self.feed = env, w, ctx, feed
        full = {b"PATH": b"/usr/bin:/bin", b"LC_ALL": b"C", b"HOME": b"/nonexistent"}
        full.update(base or {})
        for k, v in ctx["vars"]:
            if k in IF_FILE and not filed or k in IF_NAMED and not named or k == "":
                continue
            full[B(k)] = B(v).replace(b"LURE", os.path.join(w, b"lure"))
        self.vars = {k: v for k, v in full.items() if v is not None}

    def collector(self, kind, name):
        """Returns (the descriptor for the program, a function that closes it and gives what came)."""
        path = os.path.join(B(self.env.home), b"ctx-" + name)
        if kind in ("file", "append", "null", "closed"):
            fd = os.open("/dev/null" if kind in ("null", "closed") else path, os.O_RDWR | os.O_CREAT | os.O_TRUNC | (os.O_APPEND if kind == "append" else 0), 0o600)

            def done():
                data = b"" if kind in ("null", "closed") else os.pread(fd, 16 << 20, 0)
                os.close(fd)
                return data

            return fd, done
        if kind == "pipe":
            r, fd = os.pipe()
        else:
            r, fd = pty.openpty()
            tty.setraw(fd)
        got = []

        def pump():
            while True:
                try:
                    data = os.read(r, 65536)
                except OSError:
                    break
                if not data:
                    break
                got.append(data)

        t = threading.Thread(target=pump)
        t.start()

        def done():
            os.close(fd)
            t.join()
            os.close(r)
            return b"".join(got)

        return fd, done

    def source(self):
        """Returns (descriptor for standard input, a function that tells how it was used)."""
        if self.feed is None:
            kind = self.ctx["stdin"]
            if kind == "data":
                path = os.path.join(B(self.env.home), b"ctx-in")
                with open(path, "wb") as f:
                    f.write(b"a b\nlure\n" * 700)
                fd = os.open(path, os.O_RDONLY)

                def used():
                    if os.lseek(fd, 0, os.SEEK_CUR):
                        raise Violation("%d bytes of standard input were read" % os.lseek(fd, 0, os.SEEK_CUR))

                return fd, used
            if kind == "pipe":
                fd, wr = os.pipe()
                os.write(wr, b"a b\n" * 100)
                os.close(wr)

                def used():
                    if len(os.read(fd, 1000)) != 400:
                        raise Violation("the pipe on standard input was read from")

                return fd, used
            if kind == "tty":
                m, fd = pty.openpty()
                return fd, lambda: os.close(m)
            if kind == "writeonly":
                return os.open("/dev/null", os.O_WRONLY), lambda: None
            return os.open(self.w if kind == "dir" else "/dev/null", os.O_RDONLY), lambda: None
        kind = self.ctx["feed"]
        if kind.startswith("pipe"):
            fd, wr = os.pipe()
            n, data = int(kind.split()[1]), self.feed

            def push():
                try:
                    for i in range(0, len(data), n):
                        os.write(wr, data[i:i + n])
                        if i < 5 * n:
                            time.sleep(0.001)
                except OSError:
                    pass
                os.close(wr)

            t = threading.Thread(target=push)
            t.start()
            return fd, lambda: t.join()
        path = os.path.join(B(self.env.home), b"ctx-in")
        junk = b"junk\nX Y" if kind == "offset" else b""
        with open(path, "wb") as f:
            f.write(junk + self.feed)
        fd = os.open(path, os.O_RDWR | (os.O_APPEND if kind == "append" else 0))
        os.lseek(fd, len(junk), os.SEEK_SET)
        return fd, lambda: None

    def __call__(self, cmd, cwd):
        c = self.ctx
        fin, used = self.source()
        out, outdone = self.collector(c["stdout"], b"out")
        err, errdone = self.collector(c["stderr"], b"err")
        extra = [os.open("/dev/null", os.O_RDONLY) for _ in range(c["fds"])]

        def setup():
            if c["umask"] is not None:
                os.umask(c["umask"])
            if c["nice"]:
                os.nice(c["nice"])
            for s in (signal.SIGHUP, signal.SIGPIPE, signal.SIGTERM, signal.SIGCHLD, signal.SIGUSR1):
                if c["signals"] == "ignore":
                    signal.signal(s, signal.SIG_IGN)
            if c["signals"] == "block":
                signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGHUP, signal.SIGPIPE, signal.SIGTERM, signal.SIGALRM])
            if self.feed is None and c["stdin"] == "closed":
                os.close(0)
            if c["stderr"] == "closed":
                os.close(2)

        try:
            p = subprocess.Popen(cmd, cwd=cwd, stdin=fin, stdout=out, stderr=err, env=self.vars, preexec_fn=setup, start_new_session=c["session"], pass_fds=extra, restore_signals=c["signals"] != "ignore")
            slow = False
            try:
                rc = p.wait(30)
            except subprocess.TimeoutExpired:
                slow = True
                p.kill()
                rc = p.wait()
        finally:
            for fd in extra:
                os.close(fd)
            o, e = outdone(), errdone()
        try:
            if slow:
                raise Violation("%r did not finish" % (cmd,))
            used()
        finally:
            os.close(fin)
        return rc, o, None if c["stderr"] in ("closed", "null") else e


def dress(root, seed):
    """Changes of the entries that are no concern of detox's."""
    r = random.Random(seed)
    for d, subs, files in os.walk(root):
        for n in sorted(subs + files):
            p = os.path.join(d, n)
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode) or s.st_uid != os.geteuid():
                continue
            mode = None
            if stat.S_ISDIR(s.st_mode):
                mode = r.choice([0o700, 0o755, 0o1777, 0o2777])
                os.chmod(p, mode)
            else:
                if stat.S_ISREG(s.st_mode):
                    os.chmod(p, 0o600)
                    os.truncate(p, r.choice([0, 1, 4096, 1 << 20]))
                os.chmod(p, r.choice([0, 0o400, 0o644, 0o777, 0o4755]))
            t = r.choice([0, 1, 10**9, 2**31 + 5, 2**33])
            os.utime(p, (t, t))
            if engine.give and mode in (None, 0o2777) and r.random() < 0.3:
                engine.give(p)


def shape(root):
    out = []
    for d, subs, files in os.walk(root):
        for n in subs + files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            out.append((os.path.relpath(p, root), stat.S_IFMT(s.st_mode), os.readlink(p) if stat.S_ISLNK(s.st_mode) else None))
    return sorted(out)


class C31(Prop):
    id = "C31"
    quick, thorough = 500, 10000
    wants = [("plain", "detox"), ("plain", "check-table"), ("plain", "generate-builtin-table"), ("plain", "escape-utf-8")]
    rule = ("Generated runs (trees, streams, listings, table tools) are repeated in another context: other environment variables, some pointing to configuration that must not be read; another umask, priority, session, signal mask "
            "and set of open files; standard input closed, a terminal, a pipe, a file, or delivered in pieces; standard output and error a file, pipe or terminal; another current directory (for absolute paths); other contents, "
            "owners, modes and times of the files. Status, output, messages and renames have to be the same, and standard input that is not needed is not read. Non-trivial: there was output or a rename.")
    assumptions = ["POSIXLY_CORRECT, which the C library documents to end options at the first path, is left out."]

    def strategy(self, env):
        fam = gen.one_of(names.family(5), names.fs_name().map(lambda n: [n]))
        ctx = context(words(env))
        tree = plan_case(fsx.nodes(fam, 6, 2), seq(max_filters=3), kind=st.just("tree"), ctx=ctx)
        line = gen.one_of(stream.words(names.ALL), names.raw_name())
        ls = gen.one_of(st.lists(line, max_size=20), st.tuples(st.lists(line, min_size=1, max_size=6), st.integers(2, 60)).map(lambda t: t[0] * t[1]))
        inline = st.fixed_dictionaries({"kind": st.just("inline"), "ctx": ctx, "lines": ls, "seq": seq(max_filters=3), "how": st.sampled_from(["stdin", "stdin", "files", "--inline", "--inline files", "home", "no home"])})
        info = st.fixed_dictionaries({"kind": st.just("info"), "ctx": ctx, "opts": st.sampled_from([["-L"], ["-L", "-v"], ["-h"], ["-V"], ["-Z"], ["missing"], ["--inline", "missing"]]), "seq": seq(max_filters=3)})
        table = st.sampled_from(["safe", "iso8859_1", "utf_8"]).flatmap(lambda k: table_spec(k, 12)).map(lambda t: t["rows"])
        tool = st.fixed_dictionaries({"kind": st.just("tool"), "ctx": ctx, "rows": table, "form": st.integers(0, 1 << 30), "tool": st.sampled_from(["check-table", "check-table -b", "check-table -dlv", "generate-builtin-table"])})
        escape = st.fixed_dictionaries({"kind": st.just("escape"), "ctx": ctx, "lines": st.lists(line, max_size=20)})
        return gen.one_of(*[tree] * 6, *[inline] * 4, info, tool, tool, escape)

    def fixed(self, env):
        out = []
        tree = [["a b", "f", 1, 0o644], ["c&d", "d", [["e f", "f", 2, 0o644]], 0o755]]
        flags = {"r": True, "special": True, "v": True}
        tests = [{"kind": "tree", "tree": tree, "seq": {"shipped": s}, "flags": flags, "style": y, "root": "t", "picks": [0, 0]} for s in ("default", "lower") for y in ("abs", "t", ".", "children")]
        quiet = [{"kind": "tree", "tree": tree, "seq": {"shipped": "default"}, "flags": {"r": r, "special": False, "v": False}, "style": "t", "root": "t", "picks": []} for r in (False, True)]
        tests += quiet
        tests += [{"kind": "inline", "lines": ["a b", "C&d"] * 700, "seq": {"shipped": "default"}, "how": h} for h in ("stdin", "files", "--inline", "--inline files", "home", "no home")]
        tests += [{"kind": "info", "opts": o, "seq": {"custom": [{"f": "lower"}], "form": 1}} for o in (["-L"], ["-L", "-v"], ["missing"])]
        tests += [{"kind": "tool", "rows": [[97, "b"]], "form": 1, "tool": t} for t in ("check-table", "generate-builtin-table")]
        tests.append({"kind": "escape", "lines": ["a\xc3\xa9"] * 500})
        changes = [{"vars": [[k, v]]} for k in VARS + IF_FILE + IF_NAMED for v in ("1", "LURE")]
        for k, vs in (("umask", [0, 0o777]), ("nice", [5]), ("fds", [60]), ("stdin", ["closed", "data", "pipe", "tty", "dir", "writeonly"]), ("feed", ["offset", "pipe 1", "pipe 500", "pipe 100000", "append"]),
                      ("stdout", ["pipe", "tty", "append"]), ("stderr", ["pipe", "tty", "closed", "null"]), ("signals", ["ignore", "block"]), ("session", [True]), ("cwd", [True]), ("dress", [1, 2, 3])):
            changes += [{k: v} for v in vs]
        for k in words(env)[:40]:
            out += [dict(t, ctx=dict(PLAIN, vars=[[k, v]])) for t in quiet + [tests[0], tests[10]] for v in ("1", "LURE")]
        for i, t in enumerate(tests):
            for j, c in enumerate(changes):
                if "vars" not in c or (i + j) % 4 == 0:
                    out.append(dict(t, ctx=dict(PLAIN, **c)))
        return out

    def run(self, env, case):
        w = env.fresh()
        lure(w)
        return getattr(self, case["kind"])(env, w, case)

    @staticmethod
    def same(what, ctx, a, b):
        for k, x, y in zip(("status", "output", "messages"), a, b):
            if x != y and x is not None and y is not None:
                n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), 0) if k != "status" else 0
                raise Violation("%s: the %s %s %r instead of %r with %r" % (what, k, "is" if k != "messages" else "are", *((y, x) if k == "status" else (y[max(0, n - 60):n + 100], x[max(0, n - 60):n + 100])),
                                                                          {k: v for k, v in ctx.items() if v != PLAIN[k]}))

    def twice(self, env, w, case, cmd, relative, feed=None, base=None, **known):
        """The same command in the plain context and in another."""
        r = [Call(env, w, c, feed=feed, base=base, **known)(cmd, os.path.join(w, b"lure") if c["cwd"] and not relative else w) for c in (PLAIN, case["ctx"])]
        self.same(" ".join(S(os.path.basename(os.fsencode(x))) for x in cmd), case["ctx"], *r)
        return Outcome(bool(r[0][1]), [case["kind"] + (" " + case["how"] if "how" in case else "")])

    def rc(self, case, w):
        """Options for a sequence; (options, whether -f is among them)"""
        opts = setup_seq(case["seq"], w)
        return [B(o) for o in opts], "-f" in opts

    def inline(self, env, w, case):
        fl = filters_of(case["seq"])
        if not all(fits(fl, B(x)) for x in case["lines"]):
            return Outcome(False, ["too large"])
        data, base, filed, how = b"".join(B(x) + b"\n" for x in case["lines"]), None, False, case["how"]
        if how == "home":
            if "shipped" in case["seq"]:
                case = dict(case, seq={"custom": [{"f": "uncgi"}, {"f": "safe"}], "form": 1})
            os.mkdir(os.path.join(w, b"h"))
            conf.write_config(os.path.join(w, b"h"), ".detoxrc", [{"seq": "s", "filters": case["seq"]["custom"]}], case["seq"]["form"])
            opts, base = [b"-s", b"s"], {b"HOME": os.path.join(w, b"h")}
        else:
            opts, filed = self.rc(case, w)
            base = {b"HOME": None} if how == "no home" else None
        cmd = [os.fsencode(env.bin("detox" if "--inline" in how else "inline-detox"))] + opts + ([b"--inline"] if "--inline" in how else [])
        if "files" not in how:
            return self.twice(env, w, case, cmd, False, feed=data, base=base, named=True, filed=filed)
        for i in range(2):
            p = os.path.join(w, b"in%d" % i)
            with open(p, "wb") as f:
                f.write(data[i * len(data) // 2:(i + 1) * len(data) // 2])
            cmd.append(p)
        return self.twice(env, w, case, cmd, False, base=base, named=True, filed=filed)

    def info(self, env, w, case):
        opts, filed = self.rc(case, w)
        return self.twice(env, w, case, [os.fsencode(env.bin("detox"))] + opts + [B(o) for o in case["opts"]], False, named=True, filed=filed)

    def tool(self, env, w, case):
        path = os.path.join(w, b"T")
        with open(path, "wb") as f:
            f.write(conf.table_text({"rows": case["rows"], "default": None, "form": case["form"]}))
        words = case["tool"].split()
        return self.twice(env, w, case, [os.fsencode(env.bin(words[0]))] + [B(x) for x in words[1:]] + [path], False, named=True, filed=True)

    def escape(self, env, w, case):
        return self.twice(env, w, case, [os.fsencode(env.bin("escape-utf-8"))], False, feed=b"".join(B(x) + b"\n" for x in case["lines"]), named=True, filed=True)

    def tree(self, env, w, case):
        opts, filed = self.rc(case, w)
        ctx = case["ctx"]
        fl = filters_of(case["seq"])
        plans = []
        for k in (b"a", b"b"):
            os.mkdir(os.path.join(w, k))
            plans.append(Plan(os.path.join(w, k), case, fl))
        detox = os.fsencode(env.bin("detox"))
        at = [os.path.join(w, b"lure") if ctx["cwd"] and p.style == "abs" else p.cwd for p in plans]
        call = lambda c: Call(env, w, c, named=True, filed=filed)  # noqa: E731
        cmds = [[detox] + opts + [B(o) for o in p.opts()] + [b"--"] + [B(x) for x in p.args] for p in plans]
        dry = cmds[1][:1] + [b"-n"] + cmds[1][1:]
        first = call(PLAIN)(dry, plans[1].cwd)
        if ctx["dress"] is not None:
            dress(plans[1].root, ctx["dress"])
        before = shape(os.path.join(w, b"b"))
        self.same("a dry run", ctx, first, call(ctx)(dry, at[1]))
        if before != shape(os.path.join(w, b"b")):
            raise Violation("a dry run changed names")
        renames = first[1].count(b" -> ")
        if b"Cannot rename" in (first[2] or b"") or len(set(x.split(b" -> ")[-1] for x in first[1].split(b"\n") if b" -> " in x)) < renames:
            return Outcome(renames > 0, ["tree, dry run"])
        a = call(PLAIN)(cmds[0], plans[0].cwd)
        b = call(ctx)(cmds[1], at[1])
        if b"Cannot rename" in (a[2] or b""):
            return Outcome(renames > 0, ["tree, dry run"])
        b = (b[0],) + tuple(None if x is None else x.replace(os.path.join(w, b"b"), os.path.join(w, b"a")) for x in b[1:])
        if sorted(a[1]) == sorted(b[1]):  # the listing order may differ
            b = (b[0], a[1] if sorted(a[1].split(b"\n")) == sorted(b[1].split(b"\n")) else b[1], b[2])
        if b[2] is not None and sorted(a[2].split(b"\n")) == sorted(b[2].split(b"\n")):
            b = (b[0], b[1], a[2])
        self.same("a run", ctx, a, b)
        x, y = shape(os.path.join(w, b"a")), shape(os.path.join(w, b"b"))
        if x != y:
            raise Violation("a run left %r instead of %r with %r" % (sorted(set(y) - set(x))[:4], sorted(set(x) - set(y))[:4], {k: v for k, v in ctx.items() if v != PLAIN[k]}))
        return Outcome(renames > 0, ["tree"])
