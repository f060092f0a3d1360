"""C30: the result does not depend on how the programs were compiled."""

import os
import re

from hypothesis import strategies as st

from .. import build, fsx, gen, names, treerun
from ..engine import Outcome, Prop, Violation
from ..names import B
from .filters import build_locales
from .robust import KINDS, TABLE_SNIPPETS, config_bytes, stream_bytes, table_bytes

VARIANTS = ["unsigned", "clang", "debug", "small", "odd"]
PROGRAMS = ["detox", "check-table", "generate-builtin-table", "escape-utf-8"]
PERTURB = {"small": "165", "odd": "255", "clang": "1"}
WORDS = ["-n", "-r", "-v", "-vv", "-L", "-V", "-s", "-f", "-rs", "--", "-Z", "-nrv", "rc", "in", "T", "tree", "a", "b", "default", "", "utf_8", "missing", "tree/a b", "-frc", "-sa", "-Lv", "-d", "-b", "-l", "-y"]
LONG = ["--special", "--inline", "--dry-run", "--recursive", "--verbose", "--help", "-h", "--inli", "--foo", "--special=x", "-?"]


class C30(Prop):
    id = "C30"
    quick, thorough = 420, 9000
    wants = [("plain", p) for p in PROGRAMS]
    rule = ("The programs are built six times: gcc and clang, from -O0 to -O3, with signed and unsigned char, with and without DEBUG, getopt_long() and st_blocks, with automatic variables and fresh memory "
            "filled with patterns. All have to give the same status, output, messages and trees for the same configuration files, tables, streams, trees and command lines, damaged ones included. "
            "Non-trivial: the input was changed, or something was refused.")

    def prepare(self, env):
        env.extra["locpath"] = build_locales(env)
        env.extra["variants"] = []
        for v in VARIANTS:
            try:
                env.bins.update(env.build.compile([(v, p) for p in PROGRAMS]))
                env.extra["variants"].append(v)
            except build.BuildError as e:
                print("note: no build of the kind %r: %s" % (v, str(e)[-300:]))

    def strategy(self, env):
        locales = ["C", "C.UTF-8"] + env.extra["locales"]
        files = st.fixed_dictionaries({"kind": st.just("files"), "config": gen.one_of(st.none(), config_bytes(), config_bytes()), "table": table_bytes(), "stream": stream_bytes(), "simple": st.sampled_from(KINDS),
                                       "use": st.sampled_from(["inline", "inline", "inline", "file", "list", "check", "check -b", "check -dlv", "generate"]), "s": st.sampled_from([None, None, None, "a", "b", "default"]),
                                       "locale": st.sampled_from(locales)})
        shipped = st.fixed_dictionaries({"kind": st.just("shipped"), "seq": st.sampled_from(treerun.SEQS), "stream": stream_bytes(), "locale": st.sampled_from(locales)})
        tree = treerun.plan_case(fsx.nodes(names.family(5), 6, 2), treerun.seq(), kind=st.just("tree"), dry=st.booleans())
        argv = st.fixed_dictionaries({"kind": st.just("argv"), "prog": st.sampled_from(["detox", "detox", "detox", "inline-detox", "check-table", "generate-builtin-table"]),
                                      "words": st.lists(st.sampled_from(WORDS * 2 + LONG), max_size=6), "sequence": st.sampled_from([None, None, "", "a", "utf_8", "none"])})
        escape = st.fixed_dictionaries({"kind": st.just("escape"), "stream": stream_bytes()})
        return gen.one_of(*[files] * 9, *[shipped] * 2, *[tree] * 3, *[argv] * 3, escape)

    def fixed(self, env):
        out = []
        base = {"kind": "files", "config": None, "table": "", "stream": "", "simple": "utf_8", "use": "inline", "s": None, "locale": "C"}
        every = "".join(chr(c) + "z" + chr(c) + "\n" for c in range(1, 256) if c != 10)
        for k in ("safe", "iso8859_1", "utf_8"):
            for t in ("start\n" + "".join("%d <%d>\n" % (c, c) for c in range(1, 256)) + "end\n", "default ?\nstart\n0x41 x\nend\n", "start\n0x80 x\n0xff y\nend\n"):
                for use in ("inline", "check -dlv", "generate"):
                    out.append(dict(base, simple=k, table=t, stream=every, use=use))
        for t in TABLE_SNIPPETS:
            for use in ("inline", "check", "check -b", "generate"):
                out.append(dict(base, table="start\n0x20 _\n" + t + "\n0x41 aa\nend\n", stream=every + "A b\n", simple="safe", use=use))
                out.append(dict(base, table=t, stream=every, use=use))
        for s in treerun.SEQS:
            out.append({"kind": "shipped", "seq": s, "locale": "C", "stream": every + "".join(chr(a) + chr(b) + "\n" for a in (0x25, 0xC0, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFC, 0xFE, 0xFF) for b in range(256) if b != 10)})
            for n in list(range(1000, 1030)) + list(range(2005, 2020)):
                out.append({"kind": "shipped", "seq": s, "locale": "C", "stream": "A" * (n % 3) + "\xc3\xa9" * (n // 2) + "\xff" * (n % 2)})
        return out

    def run(self, env, case):
        return getattr(self, "run_" + case["kind"])(env, env.fresh(), case)

    def all(self, env, w, program, args, stdin=b"", envv=None, skip=()):
        """Runs every build, and compares the results with those of the first."""
        first = None
        for v in ["plain"] + [x for x in env.extra["variants"] if x not in skip]:
            if v == "small" and b"[-h" in first[1]:
                continue  # its usage has no long options
            e = dict(envv or {}, MALLOC_PERTURB_=PERTURB.get(v))
            rc, out, err = env.run([B(env.bin(program, v))] + [B(a) for a in args], w, stdin=stdin, env=e)
            here = os.path.dirname(B(env.bin(program, v)))
            # glibc's fortified functions end a program in their own way
            err = b"\n".join(x for x in err.replace(here, b"").split(b"\n") if not x.startswith(b"detox: debug:"))
            got = (rc, out.replace(here, b""), err)
            if first is None:
                first = got
            elif got != first:
                k = next(i for i in range(3) if got[i] != first[i])
                raise Violation("%s %s: built as %r, %s %s instead of %s" % (program, args, v, ["the status is", "the output is", "the messages are"][k], *(self.short(got[k], first[k]) if k else (got[0], first[0]))))
        return first

    @staticmethod
    def short(a, b):
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return repr(a[max(0, k - 40):k + 80]), repr(b[max(0, k - 40):k + 80])

    def locale(self, env, case):
        e = {"LC_ALL": case["locale"]}
        if case["locale"] in env.extra["locales"]:
            e["LOCPATH"] = env.extra["locpath"]
        return e

    def run_files(self, env, w, case):
        config = case["config"]
        if config is None:
            config = 'sequence a { %s { filename "T"; }; };\n' % case["simple"]
        for n, t in (("rc", config), ("T", case["table"]), ("in", case["stream"])):
            with open(os.path.join(w, B(n)), "wb") as f:
                f.write(B(t))
        opts = ["-f", "rc"] + (["-s", case["s"]] if case["s"] and case["config"] else [])
        use, stdin = case["use"], b""
        if use == "inline":
            program, args, stdin = "inline-detox", opts, B(case["stream"])
        elif use == "file":
            program, args = "inline-detox", opts + ["in"]
        elif use == "list":
            program, args = "detox", ["-Lv"] + opts
        elif use == "generate":
            program, args = "generate-builtin-table", ["T"]
        else:
            program, args = "check-table", use.split()[1:] + ["T"]
        rc, out, err = self.all(env, w, program, args, stdin, self.locale(env, case))
        return Outcome(rc != 0 or out not in (b"", B(case["stream"])), [use, "status %d" % rc])

    def run_shipped(self, env, w, case):
        rc, out, err = self.all(env, w, "inline-detox", ["-s", case["seq"]], B(case["stream"]), self.locale(env, case))
        return Outcome(out != B(case["stream"]), ["shipped " + case["seq"]])

    def run_escape(self, env, w, case):
        rc, out, err = self.all(env, w, "escape-utf-8", [], B(case["stream"]), skip=["debug"])
        return Outcome(out != B(case["stream"]), ["escape-utf-8"])

    def run_argv(self, env, w, case):
        for n, t in (("rc", "sequence a { lower; };\nsequence b { safe; };"), ("T", "start\n0x41 x\nend\n"), ("in", "A b\n")):
            with open(os.path.join(w, B(n)), "w") as f:
                f.write(t)
        os.mkdir(os.path.join(w, b"tree"))
        skip = ["small"] if set(case["words"]) & set(LONG) else []
        rc, out, err = self.all(env, w, case["prog"], case["words"], b"A b\n", {"DETOX_SEQUENCE": case["sequence"], "LC_ALL": None}, skip)
        return Outcome(len(case["words"]) > 1, ["argv " + case["prog"], "status %d" % rc])

    def run_tree(self, env, w, case):
        filters = treerun.filters_of(case["seq"])
        plan = treerun.Plan(w, case, filters)
        opts = plan.opts()
        skip = ["small"] if "--special" in opts else []
        rcs = treerun.setup_seq(case["seq"], w)
        rc, out, err = self.all(env, plan.cwd, "detox", rcs + opts + ["-n", "--"] + plan.args, skip=skip)
        if case["dry"] or re.search(rb"already exists|Cannot rename", err) or len(set(re.findall(rb" -> (.*)\n", out))) < out.count(b" -> "):
            return Outcome(b" -> " in out, ["dry run"])
        done = []
        for i, v in enumerate(["plain"] + [x for x in env.extra["variants"] if x not in skip]):
            at = os.path.join(w, b"run%d" % i)
            os.mkdir(at)
            p = treerun.Plan(at, case, filters)
            r = env.run([B(env.bin("detox", v))] + [B(x) for x in rcs + opts + ["--"] + p.args], p.cwd, env={"MALLOC_PERTURB_": PERTURB.get(v)})
            done.append((r[0], sorted((os.path.relpath(e.path, at), e.kind, e.data) for e in fsx.snapshot(at))))
            if done[-1] != done[0]:
                raise Violation("built as %r, status and tree are %r instead of %r" % (v, *[sorted(set(a) - set(b))[:5] for a, b in ((done[-1][1], done[0][1]), (done[0][1], done[-1][1]))]))
        return Outcome(b" -> " in out, ["run"])
