"""Checks that run detox on generated directory trees."""

import os
import stat

from hypothesis import strategies as st

from .. import gen

from .. import conf, fsx, model
from ..engine import Outcome, Prop, Violation
from ..names import (ALL, B, CGI_SLASH, S, UTF8_SLASH, family, fs_name, long_name)
from ..treerun import SEQS, argv, filters_of, in_scope, lines, seq, setup_seq

FLAGS = st.fixed_dictionaries({"r": st.booleans(), "special": st.booleans(), "v": st.booleans()})


def opts_of(flags):
    return (["-r"] if flags["r"] else []) + (["--special"] if flags["special"] else []) + (["-v"] if flags["v"] else [])


def cleaner(filters):
    memo = {}

    def clean(name):
        if name not in memo:
            memo[name] = model.clean(filters, name)
        return memo[name]

    return clean


class C01(Prop):
    id = "C01"
    quick, thorough = 1100, 9000
    rule = ("Generated trees (files, directories, symlinks, FIFOs, hard links; families of names that clean to the same result, long and "
            "undecodable names) are run through a shipped or generated sequence with generated flags and arguments; identity of every entry "
            "(inode, type, mode, links, contents, mtime) is compared before and after. Non-trivial: at least one entry was renamed or two "
            "entries competed for a name.")

    def strategy(self, env):
        fam = gen.one_of(family(), family(extra=CGI_SLASH * 4 + UTF8_SLASH * 4), long_name().map(lambda n: [n if n not in (".", "..") else "a b", n[:-1] + "_" if len(n) > 3 else "c d"]))
        return st.fixed_dictionaries({
            "tree": fsx.nodes(fam, 6, 2), "seq": seq(), "flags": FLAGS, "runs": st.sampled_from([1, 1, 2]),
            "args": st.lists(st.integers(-1, 30), min_size=1, max_size=3)})

    def run(self, env, case):
        w = env.fresh()
        root = os.path.join(w, b"t")
        os.mkdir(root)
        os.mkdir(os.path.join(w, b"out side"))
        with open(os.path.join(w, b"out side", b"a b"), "wb") as f:
            f.write(b"tripwire")
        fsx.materialize(case["tree"], root)
        opts = setup_seq(case["seq"], w)
        paths = [os.path.join(b"t", *map(B, p)) for p, _ in fsx.walk(case["tree"])]
        args = []
        for a in case["args"]:
            args.append("t" if a < 0 or not paths else S(paths[a % len(paths)]))
        before = fsx.snapshot(w)
        for _ in range(case["runs"]):
            rc, out, err = env.run(argv(env, opts_of(case["flags"]) + opts, args), w)
            after = fsx.snapshot(w)
            fsx.same_population(before, after)
        matched = fsx.pairs(before, after)
        ren = sum(1 for b, a in matched if a.name != b.name)
        lab = ["renamed" if ren else "nothing renamed"]
        blocked = b"Cannot rename" in err
        if blocked:
            lab.append("blocked")
        if any(e.nlink > 1 and e.kind != "d" for e in before):
            lab.append("hard links")
        if any(e.kind == "l" for e in before):
            lab.append("symlinks")
        return Outcome(ren > 0 or blocked, lab)


class C02(Prop):
    id = "C02"
    quick, thorough = 1100, 10000
    rule = ("Names and tables built to clean to empty names, '.', '..', names with slashes, and existing sibling directories to move into. "
            "Every entry has to keep its parent directory (by inode), invalid results have to leave the name alone and be reported on stderr. "
            "Non-trivial: some name cleans to an invalid result.")

    def strategy(self, env):
        toks = ["%2f", "%2F", "%2e", "%2E%2e", "%2e%2e%2f", "%2f%2e%2e", "\xc0\xaf", "\xc0\xae", "\xe0\x80\xaf", "sub%2fx", "sub", "x", "Q", "a b", "_", "-", "#", "&", "\xe9", ".", "sub\xc0\xafx", "Qx"]
        name = gen.one_of(fs_name(toks, 4), fs_name(toks, 2), st.sampled_from(["_", "-", "#", "---", "_._", "%2e", "%2e%2e", "Q", "\xe9", "Q\xe9", "sub%2fx", "sub\xc0\xafx", "subQx", "%2e%2e%2fx", "%2f", "#-_", "Z", "ZZ",
                                                                            "...", "....", "." * 9, ".-", "-.", "..-", "-..", "._.", "#.", "#..", "%2e.", "...%2f", "a b%2f", "a%2f%2f", "%2fa", "\xc0\xaf", "x\xc0\xaf"]))
        trees = st.lists(st.tuples(name, st.sampled_from("ffdl")), min_size=1, max_size=6, unique_by=lambda t: t[0])
        # tables whose replacements hold slashes, dots or nothing at all
        rep = st.sampled_from(["/", "../", "sub/", "", ".", "..", "/tmp/", "_"])
        tab = st.lists(st.tuples(st.sampled_from([ord("Q"), ord("Z"), ord("x"), 0xE9, ord("a")]), rep).map(list), min_size=1, max_size=4)
        dflt = st.sampled_from([None, None, None, "/", "../x"])
        custom = st.fixed_dictionaries({"kind": st.sampled_from(["safe", "utf_8", "iso8859_1"]), "rows": tab, "default": dflt,
                                        "more": st.lists(st.sampled_from(["uncgi", "wipeup", "lower"]), max_size=2)})
        return st.fixed_dictionaries({
            "tree": trees, "mode": st.sampled_from(["args", "dir", "recursive", "cwd"]),
            "seq": gen.one_of(st.sampled_from(["uncgi-only", "utf_8-only", "default", "uncgi"]), custom, custom),
            "dry": st.booleans()})

    def run(self, env, case):
        w = env.fresh()
        base = os.path.join(w, b"deep", b"t")
        os.makedirs(base)
        os.mkdir(os.path.join(w, b"deep", b"sub"))
        nodes = []
        for name, kind in case["tree"]:
            if name in ("sub", "sub "):
                continue
            nodes.append([name, kind, {"f": 1, "d": [["i%2fj", "f", 2, 0o644]], "l": "nowhere"}[kind], 0o644 if kind == "f" else 0o755])
        nodes.append(["sub", "d", [["k", "f", 3, 0o644]], 0o755])
        fsx.materialize(nodes, base)
        s = case["seq"]
        if isinstance(s, str):
            filters = model.SHIPPED[s]
            opts = ["-s", s]
        else:
            spec = {"rows": s["rows"], "default": s["default"], "form": 7}
            fl = [{"f": s["kind"], "table": spec}] + [{"f": m, "trailing": True} if m == "wipeup" else {"f": m} for m in s["more"]]
            filters = conf.as_model(fl)
            opts = ["-f", S(conf.write_config(w, "rc", [{"seq": "s", "filters": fl}], 3)), "-s", "s"]
        clean = cleaner(filters)
        before = fsx.snapshot(w)
        root_ino = os.lstat(base).st_ino
        mode = case["mode"]
        cwd = w
        if mode == "args":
            args = [S(os.path.join(b"deep/t", B(n[0]))) for n in nodes]
        elif mode == "cwd":
            args, cwd = [n[0] for n in nodes], base
        else:
            args = ["deep/t"]
        run_opts = (["-r"] if mode == "recursive" else []) + ["--special"] + (["-n"] if case["dry"] else [])
        rc, out, err = env.run(argv(env, run_opts + opts, args), cwd)
        after = fsx.snapshot(w)
        fsx.same_population(before, after)
        matched = fsx.pairs(before, after)  # raises when a parent changed
        news = {b.path: a.name for b, a in matched}
        if case["dry"]:
            for b, a in matched:
                if a.name != b.name:
                    raise Violation("dry run renamed %r" % b.path)
        bad = 0
        for b, a in matched:
            if b.parent != root_ino:
                continue
            if mode in ("dir", "recursive") and b.name.startswith(b"."):
                continue
            want = clean(b.name)
            if want != b.name and not model.valid_name(want):
                bad += 1
                if news[b.path] != b.name:
                    raise Violation("%r was renamed to %r" % (b.path, a.name))
                told = (b"" if mode == "cwd" else b"deep/t/") + b.name
                if b"Cannot rename %s to " % told not in err:
                    raise Violation("no message about %r on stderr, which cannot become %r" % (b.name, want))
                for line in lines(out):
                    if line.startswith(b"deep/t/" + b.name + b" -> "):
                        raise Violation("a rename of %r to %r was announced" % (b.name, want))
        return Outcome(bad > 0, ["invalid result" if bad else "all valid", mode])


class C03(Prop):
    id = "C03"
    quick, thorough = 1100, 10000
    rule = ("Lists of names (no two competing) are created as files, directories, or links and cleaned through a shipped or generated sequence; the new "
            "names are compared with the reference model of the filters and with what inline mode prints. Non-trivial: some name changes.")

    def strategy(self, env):
        name = gen.one_of(fs_name(), fs_name(), long_name())
        return st.fixed_dictionaries({
            "names": st.lists(st.tuples(name, st.sampled_from("ffdl")), min_size=1, max_size=8, unique_by=lambda t: t[0]),
            "seq": seq(), "how": st.sampled_from(["args", "dir", "cwd", "abs"]),
            "path": st.sampled_from(["", "", "./", "t//", "t/./", "t/../", "././/", "../w/"])})

    def run(self, env, case):
        w = env.fresh()
        base = os.path.join(w, b"t")
        os.mkdir(base)
        opts = setup_seq(case["seq"], w)
        clean = cleaner(filters_of(case["seq"]))
        used, nodes = set(), []
        for name, kind in case["names"]:
            if name in (".", ".."):
                continue
            want = S(clean(B(name)))
            if name in used or want in used:
                continue
            used.update((name, want))
            nodes.append([name, kind, {"f": 1, "d": [], "l": "no where"}[kind], 0o644 if kind == "f" else 0o755])
        fsx.materialize(nodes, base)
        before = fsx.snapshot(base)
        how = case["how"]
        cwd = w
        odd = case.get("path", "").replace("../w/", "../%s/" % S(os.path.basename(w)))
        pre = {"t//": "t//", "t/./": "t/./", "t/../": "t/../t/"}.get(odd, odd + "t/")
        if how == "args":
            args = [pre + n[0] for n in nodes]
        elif how == "abs":
            args = [S(w) + "/" + pre + n[0] for n in nodes]
        elif how == "cwd":
            args, cwd = ["./" * ("." in odd) + n[0] for n in nodes], base
        else:
            args = [pre.rstrip("/") if pre in ("t/", "./t/", "././t/") or odd.startswith("../") else "t"]
        if not args:
            return Outcome(False)
        root_ino = os.lstat(base).st_ino
        rc, out, err = env.run(argv(env, ["--special"] + opts, args), cwd)
        now = fsx.find(w, root_ino)
        want = clean(b"t") if how == "dir" else b"t"
        if os.path.basename(now) != (want if model.valid_name(want) else b"t"):
            raise Violation("the directory given became %r instead of %r" % (now, want))
        after = fsx.snapshot(now)
        if out:
            raise Violation("output without -v: %r" % out[:200])
        changed = 0
        inline_in, inline_want = [], []
        for b, a in fsx.pairs(before, after):
            if how == "dir" and b.name.startswith(b"."):
                if a.name != b.name:
                    raise Violation("hidden %r was renamed" % b.name)
                continue
            want = clean(b.name)
            if want == b.name:
                if a.name != b.name:
                    raise Violation("%r should have stayed, is now %r" % (b.name, a.name))
                if b"Cannot rename" in err and (b"/" + b.name + b" to ") in err:
                    raise Violation("a clean name %r was reported: %r" % (b.name, err[:300]))
            elif model.valid_name(want):
                if a.name != want:
                    raise Violation("%r became %r instead of %r" % (b.name, a.name, want))
                changed += 1
            elif a.name != b.name:
                raise Violation("%r became %r, %r is not a name" % (b.name, a.name, want))
            if b"\n" not in b.name and b"\n" not in want:
                inline_in.append(b.name)
                inline_want.append(a.name if model.valid_name(want) else want)
        rc, out, err = env.run(argv(env, opts, [], "inline-detox"), w, stdin=b"".join(n + b"\n" for n in inline_in))
        if inline_in and out != b"".join(n + b"\n" for n in inline_want):
            raise Violation("inline mode gives %r for %r, file mode gave %r" % (out, inline_in, inline_want))
        return Outcome(changed > 0, [how, "shipped" if "shipped" in case["seq"] else "custom"])


class C04(Prop):
    id = "C04"
    NAMES = ["{arch} 1", "{ARCH}", "x {arch}", "{arch", "{arch}{arch}", "{Arch}", "CVS dir 2", "CVS di", "cvs dir", "a b c", "a ", "A B", "i ", "I g", "_svn x", "_sv", "_SVN", "c d d", "ok ok", "x??", "m'"] + ["a b", "c d", "e&f", "g!h", "ok", "k (1)", ".hid den", "..x y", "{arch}", "{arch}", "CVS dir", "_svn", "i g", "x?", "-lead", "tail_", "m'n", "w " + "w" * 253, "w" * 254 + "&"[:1], "w" * 253 + " w", "." + "h " * 127]
    quick, thorough = 700, 9000
    rule = ("Trees with hidden entries, ignored names, symlinks to dirty directories, FIFOs, sockets, special mode bits and nesting, run with and without -r and --special and with "
            "generated ignore lists; which entries may change is computed from the documentation. Non-trivial: some dirty entry is out of scope and "
            "some entry in scope was renamed.")

    def strategy(self, env):
        names = st.sampled_from(self.NAMES)
        pool = st.lists(names, min_size=6, max_size=20, unique=True)
        return st.fixed_dictionaries({
            "tree": fsx.nodes(pool, 7, 3, kinds="fffdddddllpfs", targets=st.sampled_from(["linked dir", "../linked dir", "../../linked dir", "no where", "."])),
            "flags": FLAGS, "conf": st.booleans(),
            "ignore": st.lists(names, min_size=1, max_size=5),
            "args": st.sampled_from(["t", "t", "t/", ".", "hidden arg", "ignored arg", "link arg", "others", "./t", "twice"]),
            "pre": st.sampled_from(["", "", "./", "../w/", "abs", ".//"])})

    LINKS = [(b"linked dir", b"link to dir"), (b"no where", b"link to nothing"), (b"link to itself", b"link to itself"), (b"linked dir/in side", b"link to file"), (b".", b". link here")]

    def fixed(self, env):
        """Each name ignored in turn, next to all the others."""
        out, every = [], sorted(set(self.NAMES))
        tree = [[n, "fd"[i % 2], i if i % 2 == 0 else [["in ner", "f", 1, 0o644]], 0o644 if i % 2 == 0 else 0o755] for i, n in enumerate(every)]
        for i, n in enumerate(every):
            for ig in ([n], [every[i - 1], n], [n, "no such", every[i - 2]]):
                out.append({"tree": tree, "flags": {"r": True, "special": False, "v": False}, "conf": True, "ignore": ig, "args": "t"})
        out.append({"tree": tree, "flags": {"r": True, "special": False, "v": False}, "conf": False, "ignore": ["x"], "args": "t"})
        for special in (True, False):
            out.append({"tree": tree, "flags": {"r": True, "special": special, "v": False}, "conf": False, "ignore": ["x"], "args": "others"})
        return out

    def run(self, env, case):
        w = env.fresh()
        arg = case["args"]
        special, recurse = case["flags"]["special"], case["flags"]["r"]
        top = {"hidden arg": b".top dir", "ignored arg": b"CVS dir"}.get(arg, b"t")
        root = os.path.join(w, top)
        os.mkdir(root)
        fsx.materialize(case["tree"], root)
        linked = os.path.join(w, b"linked dir")
        os.mkdir(linked)
        fsx.materialize([["in side", "f", 1, 0o644], ["sub dir", "d", [["x y", "f", 2, 0o644]], 0o755]], linked)
        for target, name in self.LINKS:
            os.symlink(target, os.path.join(w, name))
        os.mkfifo(os.path.join(w, b"fi fo"))
        os.mknod(os.path.join(w, b"so cket"), stat.S_IFSOCK | 0o644)
        ignore = case["ignore"] if case["conf"] else None
        ig = set(map(B, ignore)) if ignore else set(model.SHIPPED_IGNORE)
        if arg == "ignored arg" and ignore:
            ig.add(b"CVS dir")
            ignore = ignore + ["CVS dir"]
        opts = setup_seq({"shipped": "default"}, w, ignore)
        clean = cleaner(model.SHIPPED["default"])
        before = fsx.snapshot(w)
        root_ino = os.lstat(root).st_ino
        decide = in_scope(root_ino, recurse, special, ig)(before)
        cwd, args = w, [arg]
        if arg in ("hidden arg", "ignored arg"):
            args = [S(top)]
        elif arg == "link arg":
            args = ["link to dir"]
            decide = lambda e: special and e.name == b"link to dir"  # noqa: E731
        elif arg == "others":
            args = [S(name) for _, name in self.LINKS] + ["fi fo", "so cket"]
            decide = lambda e: special and S(e.name) in args  # noqa: E731
        elif arg == ".":
            cwd = root
        elif arg == "twice":
            args = ["t", "t"]
        pre = {"../w/": "../%s/" % S(os.path.basename(w)), "abs": S(w) + "/"}.get(case.get("pre", ""), case.get("pre", ""))
        named = set(map(B, args)) if arg in ("hidden arg", "ignored arg") else set()
        work_ino = os.lstat(w).st_ino

        def processed(e):
            if e.parent == work_ino and e.name in named:
                return True
            return decide(e)

        if cwd == w:
            given = [pre + a for a in args]
        else:
            given = args
        rc, out, err = env.run(argv(env, opts_of(case["flags"]) + opts, given), cwd)
        after = fsx.snapshot(w)
        fsx.same_population(before, after)
        ren, blocked = fsx.judge(before, after, processed, clean)
        outside = sum(1 for e in before if not processed(e) and clean(e.name) != e.name)
        return Outcome(ren > 0 and outside > 0, [arg, "recursive" if recurse else "flat", "special" if special else "plain",
                                                 "renamed" if ren else "none renamed"])
_ = (ALL, SEQS)
