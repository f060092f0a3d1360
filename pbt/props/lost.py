"""Checks of what happens when output cannot be written or input not be read."""

import os
import resource
import signal
import subprocess

from hypothesis import strategies as st

from .. import conf, fsx, gen, model, names, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S, family, fs_name
from ..treerun import SEQS, Plan, argv, filters_of, plan_case, seq, setup_seq
from .faults import read_log
from .filters import fits, table_spec
from .text import block_text
from .tree import cleaner

SINKS = ["limit", "limit", "limit", "full", "closed", "pipe"]


def run_into(env, cmd, cwd, sink, limit, stdin=b"", envv=None):
    """Runs a program with a standard output that takes only so much.  Returns status, what got through (None: unknown), standard error."""
    full = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent"}
    full.update(envv or {})
    path = os.path.join(env.home, "sink")
    spare = None
    if sink == "full":
        out = os.open("/dev/full", os.O_WRONLY)
    elif sink == "pipe":
        r, out = os.pipe()
        os.close(r)
    else:
        out = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    spare = os.path.join(env.home, "stdin")
    with open(spare, "wb") as f:
        f.write(stdin)
    fin = open(spare, "rb")

    def setup():
        # the shell that runs a job in a pipeline may ignore both signals
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if sink == "limit":
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if sink == "closed":
            os.close(1)

    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdin=fin, stdout=out, stderr=subprocess.PIPE, env=full, restore_signals=False, preexec_fn=setup)
        try:
            _, err = p.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Violation("%r did not finish" % (cmd,))
        got = None
        if sink == "limit":
            with open(path, "rb") as f:
                got = f.read()
    finally:
        fin.close()
        os.close(out)
    if p.returncode < 0:
        raise Violation("%r ended with signal %d" % (cmd, -p.returncode))
    return p.returncode, got, err


class C29(Prop):
    id = "C29"
    level = "fault_enumeration"
    shims = ["fs"]
    quick, thorough = 1000, 12000
    wants = [("plain", "detox"), ("plain", "check-table"), ("plain", "generate-builtin-table"), ("plain", "escape-utf-8")]
    rule = ("Every program, with generated input and options (trees, streams, configurations, tables, text), is run with a standard output that ends after a generated number of bytes, is full, "
            "closed, or a pipe nobody reads: unless all of the output got through it has to fail with a message, what got through has to be the beginning of the full output, and the tree has to "
            "be as after a run with a working output. Reading of an inline input, a table or a config file is made to fail after a generated number of bytes. Non-trivial: output was lost, or a read failed.")

    def prepare(self, env):
        stream.prepare_shipped(env)

    def strategy(self, env):
        sink = {"sink": st.sampled_from(SINKS), "at": gen.one_of(st.integers(0, 40), st.integers(0, 40).map(lambda n: -n), st.integers(0, 9000))}
        fam = gen.one_of(family(4), fs_name().map(lambda n: [n]))
        tree = plan_case(fsx.nodes(fam, 6, 2), seq(max_filters=2), kind=st.just("tree"), dry=st.booleans(), **sink)
        line = gen.one_of(stream.words(names.ALL), names.raw_name())
        ls = gen.one_of(st.lists(line, min_size=1, max_size=30), st.tuples(st.lists(line, min_size=1, max_size=6), st.integers(2, 60)).map(lambda t: t[0] * t[1]))
        sq = gen.one_of(st.sampled_from(SEQS).map(lambda n: {"shipped": n}), st.fixed_dictionaries({"custom": conf.filter_list(2), "form": st.integers(0, 1 << 30)}))
        inline = st.fixed_dictionaries(dict(sink, kind=st.just("inline"), lines=ls, seq=sq, how=st.sampled_from(["stdin", "file", "files", "--inline"])))
        info = st.fixed_dictionaries(dict(sink, kind=st.just("info"), opts=st.sampled_from([["-L"], ["-L", "-v"], ["-Lvv"], ["-h"], ["--help"], ["-V"]]), inline=st.booleans(), seq=sq))
        table = st.sampled_from(["safe", "iso8859_1", "utf_8"]).flatmap(lambda k: table_spec(k, 12)).map(lambda t: t["rows"])
        rows = gen.one_of(table, table, st.integers(20, 600).map(lambda n: [[k, "r%x" % k] for k in range(1, n)]))
        tool = st.fixed_dictionaries(dict(sink, kind=st.just("tool"), rows=rows, form=st.integers(0, 1 << 30), tool=st.sampled_from(["check-table", "check-table -d", "check-table -bd", "generate-builtin-table"])))
        escape = st.fixed_dictionaries(dict(sink, kind=st.just("escape"), lines=st.lists(st.text(st.characters(blacklist_categories=["Cs"]).filter(lambda c: c not in "\0\n"), max_size=40).map(lambda t: S(t.encode())), min_size=1, max_size=40)))
        bad = {"at": gen.one_of(st.integers(0, 60), st.integers(0, 5000)), "cut": st.sampled_from(["middle", "middle", "end", "start"])}
        badline = gen.one_of(line, line, line, st.tuples(line, st.integers(1, 2500)).map(lambda t: t[0] + "y" * t[1]))
        read = st.fixed_dictionaries(dict(bad, kind=st.just("read"), parts=st.lists(st.lists(badline, min_size=1, max_size=12), min_size=1, max_size=3), which=st.integers(0, 2), seq=st.sampled_from(["lower-only", "utf_8-only", "default"]),
                                          program=st.sampled_from(["inline-detox", "detox"])))
        unread = st.fixed_dictionaries(dict(bad, kind=st.just("unread"), what=st.sampled_from(["table", "table", "config", "check-table", "check-table -b", "generate-builtin-table"]), rows=rows, form=st.integers(0, 1 << 30),
                                            inline=st.booleans(), tree=fsx.nodes(fam, 4, 1)))
        return gen.one_of(tree, tree, inline, inline, info, tool, escape if env.tier != "quick" else tool, read, read, unread, unread)

    def fixed(self, env):
        out = []
        for sink in ("limit", "full", "closed", "pipe"):
            for opts in (["-L"], ["-L", "-v"], ["-h"], ["-V"]):
                for inline in (False, True):
                    out.append({"kind": "info", "opts": opts, "inline": inline, "seq": {"shipped": "default"}, "sink": sink, "at": 0})
            for how in ("stdin", "file", "files", "--inline"):
                for at in (0, -1):
                    out.append({"kind": "inline", "lines": ["a b"] * 1500, "seq": {"shipped": "default"}, "how": how, "sink": sink, "at": at})
            for tool in ("check-table", "check-table -d", "check-table -bd", "generate-builtin-table"):
                out.append({"kind": "tool", "rows": [[k, "x"] for k in range(1, 400)], "form": 1, "tool": tool, "sink": sink, "at": 0})
            out.append({"kind": "escape", "lines": ["\xc3\xa9", "a"], "sink": sink, "at": 1})
        for stdin in ("dir", "writeonly", "closed"):
            for program in ("inline-detox", "detox"):
                out.append({"kind": "stdin", "stdin": stdin, "program": program})
        for program in ("inline-detox", "detox"):
            for link in ("dir", "mem"):
                for pos in range(3):
                    out.append({"kind": "link", "program": program, "link": link, "pos": pos})
        for tool in ("check-table", "check-table -b", "generate-builtin-table"):
            out.append({"kind": "odd table", "tool": tool})
        return out

    def run(self, env, case):
        return getattr(self, case["kind"].replace(" ", "_"))(env, env.fresh(), case)

    # -- output

    @staticmethod
    def room(case, size):
        """How many bytes of the output there is room for."""
        return max(0, size + case["at"]) if case["at"] < 0 else min(case["at"], size)

    def judge(self, case, rc, out, what, rc2, got, err):
        """rc, out: of a run with working output."""
        lost = bool(out) if case["sink"] != "limit" else self.room(case, len(out)) < len(out)
        if got is not None and not (out.startswith(got) if lost else got == out):
            raise Violation("%s: %r got through, which is not how the full output begins: %r" % (what, got[-200:], out[:len(got) + 50][-250:]))
        if not lost:
            if rc2 != rc:
                raise Violation("%s: status %d instead of %d although nothing was lost: %r" % (what, rc2, rc, err[:300]))
        elif rc2 == 0:
            raise Violation("%s: status 0, although %s of the output were lost; standard error: %r" % (what, "%d of %d bytes" % (len(out) - len(got), len(out)) if got is not None else "all %d bytes" % len(out), err[:300]))
        elif not err.strip():
            raise Violation("%s: output was lost, status %d, but there is no message" % (what, rc2))
        return Outcome(lost, ["%s: %s" % (case["kind"], case["sink"]), "lost" if lost else "enough room"])

    def both(self, env, w, case, cmd, stdin=b"", envv=None, cwd=None):
        rc, out, err = env.run(cmd, cwd or w, stdin=stdin, env=envv)
        if rc != 0:
            raise Violation("status %d: %r" % (rc, err[:300]))
        r = run_into(env, cmd, cwd or w, case["sink"], self.room(case, len(out)), stdin, envv)
        return self.judge(case, rc, out, "%r with standard output %s" % ([S(os.path.basename(os.fsencode(cmd[0])))] + [S(os.fsencode(x)) for x in cmd[1:]],
                          "limited to %d of %d bytes" % (self.room(case, len(out)), len(out)) if case["sink"] == "limit" else case["sink"]), *r)

    def inline(self, env, w, case):
        fl = filters_of(case["seq"])
        if not all(fits(fl, B(x)) for x in case["lines"]):
            return Outcome(False, ["too large"])
        data = b"".join(B(x) + b"\n" for x in case["lines"])
        cmd = [os.fsencode(env.bin("detox" if case["how"] == "--inline" else "inline-detox"))] + [B(o) for o in setup_seq(case["seq"], w)]
        if case["how"] == "--inline":
            cmd.append(b"--inline")
        if "file" in case["how"]:
            for i, part in enumerate([data] if case["how"] == "file" else [data[:len(data) // 2], data[len(data) // 2:]]):
                with open(os.path.join(w, b"in%d" % i), "wb") as f:
                    f.write(part)
                cmd.append(b"in%d" % i)
            data = b""
        return self.both(env, w, case, cmd, data)

    def info(self, env, w, case):
        opts = setup_seq(case["seq"], w) if "custom" in case["seq"] else []
        return self.both(env, w, case, [env.bin("inline-detox" if case["inline"] else "detox")] + case["opts"] + opts)

    def tool(self, env, w, case):
        with open(os.path.join(w, b"t.tbl"), "wb") as f:
            f.write(block_text({"blocks": [[None, case["rows"]]], "default": "x", "form": case["form"]}))
        tool = case["tool"].split(" ")
        return self.both(env, w, case, [env.bin(tool[0])] + tool[1:] + ["t.tbl"])

    def escape(self, env, w, case):
        return self.both(env, w, case, [env.bin("escape-utf-8")], b"".join(B(x) + b"\n" for x in case["lines"]))

    def tree(self, env, w, case):
        # without competing names nothing depends on the order of listings but the order of lines
        tree = fsx.separate(fsx.tidy(case["tree"], fsx.no_newlines), cleaner(filters_of(case["seq"])))
        found = []
        for i in range(2):
            d = os.path.join(w, b"%d" % i)
            os.mkdir(d)
            opts = setup_seq(case["seq"], d)
            p = Plan(d, case, None, tree)
            if not p.args:
                return Outcome(False)
            cmd = argv(env, (["-n"] if case["dry"] else []) + p.opts() + opts, p.args)
            if i == 0:
                rc, out, err = env.run(cmd, p.cwd)
            else:
                # the folder's own name may stand in the output
                out = out.replace(os.path.join(w, b"0"), os.path.join(w, b"1"))
                rc2, got, err2 = run_into(env, cmd, p.cwd, case["sink"], self.room(case, len(out)))
            now = fsx.snapshot(d)
            fsx.same_population(p.before, now)
            found.append({(os.path.relpath(e.path, d), e.kind, e.data) for e in now})
        a, b = ({x[0] for x in f} for f in found)
        what = "%r with standard output %s (%d)" % (cmd[1:], case["sink"], self.room(case, len(out)))
        if a != b:
            raise Violation("%s: the tree lacks %r and has %r instead" % (what, sorted(a - b)[:5], sorted(b - a)[:5]))
        if got is not None:
            if not set(got.split(b"\n")[:-1]) <= set(out.split(b"\n")):
                raise Violation("%s: %r got through, which is not part of %r" % (what, got[:300], out[:300]))
            got = out[:len(got)] if len(got) == self.room(case, len(out)) else got
        return self.judge(case, rc, out, what, rc2, got, err2)

    # -- input

    def put(self, w, name, data):
        path = os.path.join(w, B(name))
        with open(path, "wb") as f:
            f.write(data)
        return path, os.stat(path).st_ino

    @staticmethod
    def cut(case, size):
        return {"start": 0, "end": max(0, size - case["at"] % 3), "middle": case["at"] % (size + 1)}[case["cut"]]

    def fired(self, log):
        return any(c[0] == "badread" for c in read_log(log)[0])

    def expect(self, seqname, data):
        return b"".join(model.clean(model.SHIPPED[seqname], x) + b"\n" for x in data.split(b"\n")[:-1])

    def read(self, env, w, case):
        local = case["seq"] != "default"
        parts = [b"".join(B(x if local else x[:900]) + b"\n" for x in ls) for ls in case["parts"]]
        which = case["which"] % len(parts)
        cmd = [os.fsencode(env.bin(case["program"])), b"-s", B(case["seq"])] + ([b"--inline"] if case["program"] == "detox" else [])
        for i, d in enumerate(parts):
            path, ino = self.put(w, "in %d" % i, d)
            cmd.append(b"in %d" % i)
            if i == which:
                bad = ino
        k = self.cut(case, len(parts[which]))
        log = S(w) + "/log"
        rc, out, err = env.run(cmd, w, env={"PBT_READ": "%d:%d" % (k, bad), "PBT_LOG": log}, preload=env.shims["fs"])
        if not self.fired(log):
            return Outcome(False, ["no read failed"])
        what = "reading input %d of %d failed after %d of its %d bytes: " % (which + 1, len(parts), k, len(parts[which]))
        if b"in %d" % which not in err:
            raise Violation(what + "no message names it: %r (status %d)" % (err[:300], rc))
        first = b"".join(self.expect(case["seq"], d) for d in parts[:which])
        whole = parts[which][:k]
        first += self.expect(case["seq"], whole[:whole.rfind(b"\n") + 1])
        last = b"".join(self.expect(case["seq"], d) for d in parts[which + 1:])
        if not out.startswith(first):
            raise Violation(what + "what was read before is missing: %r does not begin with %r" % (out[:300], first[:300]))
        rest = out[len(first):]
        if not rest.endswith(last) or b"\n" in rest[:len(rest) - len(last)]:
            raise Violation(what + "the other inputs are missing: %r does not end with %r" % (rest[:300], last[:300]))
        return Outcome(True, ["read failed"])

    def unread(self, env, w, case):
        text = block_text({"blocks": [[None, case["rows"]]], "default": "x", "form": case["form"]})
        table, ino = self.put(w, "t.tbl", text)
        config = ('# what to do\nsequence s { utf_8 { filename "%s"; }; wipeup; };\nignore { filename "none"; };\n' % S(table)).encode("latin-1")
        rc_path, rc_ino = self.put(w, "rc", config)
        if case["what"] == "config":
            text, ino = config, rc_ino
        k = self.cut(case, len(text))
        what = "reading the %s failed after %d of its %d bytes: " % (case["what"], k, len(text))
        log = S(w) + "/log"
        envv = {"PBT_READ": "%d:%d" % (k, ino), "PBT_LOG": log}
        tool = case["what"].split(" ")
        if tool[0] in ("table", "config"):
            root = os.path.join(w, b"tr ee")
            os.mkdir(root)
            fsx.materialize(fsx.tidy(case["tree"], fsx.no_newlines), root)
            before = sorted((e.path, e.kind, e.ino) for e in fsx.snapshot(root))
            cmd = [env.bin("inline-detox" if case["inline"] else "detox"), "-f", rc_path, "-s", "s"] + ([] if case["inline"] else ["-r", root])
            rc, out, err = env.run(cmd, w, stdin=b"a b\nc d\n", env=envv, preload=env.shims["fs"])
            if not self.fired(log):
                return Outcome(False, ["no read failed"])
            if sorted((e.path, e.kind, e.ino) for e in fsx.snapshot(w) if (e.path + b"/").startswith(root + b"/") and e.path != root) != [x for x in before if x[0] != root] or not os.path.isdir(root):
                raise Violation(what + "entries were renamed")
        else:
            rc, out, err = env.run([env.bin(tool[0])] + tool[1:] + ["t.tbl"], w, env=envv, preload=env.shims["fs"])
            if not self.fired(log):
                return Outcome(False, ["no read failed"])
        if rc == 0:
            raise Violation(what + "status 0, standard output %r, standard error %r" % (out[:200], err[:200]))
        if not err.strip():
            raise Violation(what + "no message (status %d)" % rc)
        if out and tool[0] in ("table", "config", "generate-builtin-table"):
            raise Violation(what + "%r was written" % out[:200])
        return Outcome(True, ["%s not read" % case["what"]])

    def odd_table(self, env, w, case):
        """A directory opens like a file but cannot be read."""
        os.mkdir(os.path.join(w, b"d.tbl"))
        tool = case["tool"].split(" ")
        rc, out, err = env.run([env.bin(tool[0])] + tool[1:] + ["d.tbl"], w)
        if rc == 0 or not err.strip():
            raise Violation("%s of a directory: status %d, standard output %r, standard error %r" % (case["tool"], rc, out[:300], err[:300]))
        return Outcome(True, ["directory as table"])

    def stdin(self, env, w, case):
        cmd = [env.bin(case["program"])] + (["--inline"] if case["program"] == "detox" else [])
        kind = case["stdin"]
        if kind == "closed":
            cmd = ["/bin/sh", "-c", "exec \"$@\" <&-", "sh"] + cmd
            fin = open("/dev/null", "rb")
        elif kind == "dir":
            fin = Raw(os.open(w, os.O_RDONLY))
        else:
            fin = Raw(os.open(os.path.join(w, b"f"), os.O_WRONLY | os.O_CREAT, 0o600))
        rc, out, err = env.run(cmd, w, stdin=fin)
        if b"stdin" not in err:
            raise Violation("standard input cannot be read (%s): status %d, standard output %r, and no message about stdin" % (kind, rc, out[:200]))
        if out:
            raise Violation("standard input cannot be read (%s): %r was written" % (kind, out[:200]))
        return Outcome(True, ["standard input: " + kind])

    def link(self, env, w, case):
        """A link to something that opens but cannot be read, among good inputs."""
        os.mkdir(os.path.join(w, b"d"))
        os.symlink("d" if case["link"] == "dir" else "/proc/self/mem", os.path.join(w, b"bad one"))
        args = ["good 0", "good 1"]
        want = b"".join(b"line_%d\n" % i for i in range(2))
        for i, a in enumerate(args):
            self.put(w, a, b"line %d\n" % i)
        args.insert(case["pos"], "bad one")
        rc, out, err = env.run([env.bin(case["program"])] + (["--inline"] if case["program"] == "detox" else []) + args, w)
        if out != want:
            raise Violation("%r was written instead of %r" % (out[:300], want))
        if b"bad one" not in err:
            raise Violation("%r cannot be read, but no message names it: %r" % ("bad one", err[:300]))
        return Outcome(True, ["unreadable link"])


class Raw:
    """A descriptor as subprocess takes it."""

    def __init__(self, fd):
        self.fd = fd

    def fileno(self):
        return self.fd

    def close(self):
        os.close(self.fd)
