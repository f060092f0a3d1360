"""Checks of the configuration: what a file means, layers, refusals, options."""

import os
import re

from hypothesis import strategies as st

from .. import gen

from .. import conf, confparse, fsx, layers, model, names, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S
from .filters import fits


def flat_tree(w, entries):
    """A folder 'tree' of files and folders with the given names."""
    root = os.path.join(w, b"tree")
    os.mkdir(root)
    for i, (name, kind) in enumerate(entries):
        p = os.path.join(root, B(name))
        if os.path.lexists(p):
            continue
        if kind == "d":
            os.mkdir(p)
            with open(os.path.join(p, b"in side"), "wb"):
                pass
        else:
            with open(p, "wb") as f:
                f.write(b"%d" % i)
    return root


ENTRIES = st.lists(st.tuples(st.sampled_from(layers.DIRTY + [".hid den"]), st.sampled_from("ffd")).map(list), min_size=1, max_size=8)
LINES = st.lists(gen.one_of(names.raw_name(max_tokens=6), stream.words(names.ALL, 6)), min_size=1, max_size=4)


def select(names_):
    """How the sequence is chosen: {"s": ..., "env": ...}"""
    some = st.sampled_from(names_)
    return gen.one_of(st.just({}), some.map(lambda n: {"s": n}), some.map(lambda n: {"env": n}),
                     st.tuples(some, some).map(lambda t: {"s": t[0], "env": t[1]}), st.sampled_from([{"s": "no such"}, {"env": "no such"}, {"s": "Default"}, {"env": ""}]))


def scope_flat(before, root_ino, recurse, ignored):
    """processed(entry) below one directory argument named 'tree'."""
    parents = {e.ino: e for e in before}

    def processed(e):
        if e.name == b"tree" and e.ino == root_ino:
            return True
        x, depth = e, 0
        while True:
            if x.name.startswith(b".") or x.name in ignored:
                return False
            if x.parent == root_ino:
                return depth == 0 or recurse
            x, depth = parents.get(x.parent), depth + 1
            if x is None:
                return False

    return processed


class Whole(Prop):
    """Runs a placed configuration in all modes and compares with the model."""

    def whole(self, env, p, case, select_, lines, entries):
        """Returns (the chosen filters or None, how many things changed)."""
        seqs, ignored = p.effective()
        wanted = select_.get("s", select_.get("env"))
        chosen = layers.choose(seqs, wanted)
        opts = list(p.opts)
        if "s" in select_:
            opts += ["-s", select_["s"]]
        envv = dict(p.env)
        if "env" in select_:
            envv["DETOX_SEQUENCE"] = select_["env"]
        exe = os.fsencode(env.bin())
        base = [exe] + [B(o) for o in opts]
        for more, verbose in (([b"-L"], False), ([b"-L", b"-v"], True)):
            rc, out, err = env.run(base + more, p.w, env=envv)
            if rc != 0 or err:
                raise Violation("%s: status %d, %r" % (more, rc, err[:300]))
            layers.compare_listing(out, layers.listing(seqs, ignored, chosen, verbose), " ".join(map(S, more)))
        root = flat_tree(p.w, entries)
        if chosen is None:
            before = fsx.full(p.w)
            for cmd in (base + [b"tree"], base + [b"--inline"]):
                rc, out, err = env.run(cmd, p.w, stdin=b"a b\n", env=envv)
                if rc == 0 or not err or out:
                    raise Violation("there is no sequence to use, but status %d, output %r, errors %r" % (rc, out[:100], err[:200]))
            if fsx.full(p.w) != before:
                raise Violation("files changed although there is no sequence to use")
            return None, 0
        filters = p.runnable(seqs[chosen][1])
        lines = [B(t) for t in lines if fits(filters, B(t)) and "\n" not in t]
        want = [model.clean(filters, t) for t in lines]
        stream.inline(env, p.w, opts, lines, want, envv)
        if any(not fits(filters, B(n), 4000) for n, _ in entries):
            return filters, 0
        before = fsx.snapshot(root)
        root_ino = os.lstat(root).st_ino
        rc, out, err = env.run(base + ([b"-r"] if case.get("r") else []) + [b"tree"], p.w, env=envv)
        if rc != 0:
            raise Violation("status %d: %r" % (rc, err[:300]))
        new = fsx.find(p.w, root_ino)
        after = fsx.snapshot(new)
        for e in before:
            e.path = os.path.relpath(e.path, root)
        clean = lambda n: model.clean(filters, n)  # noqa: E731
        done, _ = fsx.judge(before, after, scope_flat(before, root_ino, case.get("r"), {B(n) for n in ignored}), clean)
        return filters, done + (want != lines)


SET = st.sampled_from([True, True, True, True, False, ""])


class C18(Whole):
    id = "C18"
    shims = ["fs"]
    quick, thorough = 650, 12000
    rule = ("Configurations of up to three layers, or one file given by -f, or none, are made of generated sequences (all filters, builtin, own and searched-for tables, lengths), "
            "names that need quotes, look like keywords, repeat within and across layers, and ignore lists; they are written with varying spacing, comments, case and "
            "quoting. -L, -L -v, a stream and a tree are compared with an ordered dictionary of sequences; files with strings of any bytes and length are only listed. Non-trivial: two layers or a repeated name, and something was cleaned.")

    def strategy(self, env):
        from .filters import table_spec

        @st.composite
        def case(draw):
            pool = draw(st.lists(st.sampled_from(layers.SEQ_NAMES), min_size=1, max_size=4))
            its = layers.items_strategy(5, pool)
            out = {}
            k = draw(st.integers(0, 9))
            for place in layers.PLACES:
                if k != 0 and draw(st.booleans()):
                    out[place] = draw(its)
            if k in (1, 2, 3):
                for place in layers.SYSTEM[1:]:
                    if draw(st.booleans()):
                        out[place] = draw(its)
            if k >= 8:
                out["f"] = draw(its)
            search = {}
            if draw(st.integers(0, 3)) == 0:
                for kind, n in (("safe", "safe"), ("iso8859_1", "iso8859_1"), ("utf_8", "unicode")):
                    for folder in ["", ""] + layers.SHARED[1:]:
                        if draw(st.integers(0, 2)) == 0:
                            search[folder + "/" + n if folder else n] = draw(table_spec(kind, 6))
            return {"layers": out, "form": draw(st.integers(0, 1 << 30)), "home": draw(SET), "xdg": draw(SET),
                    "select": draw(select(pool + (["default", "lower", "utf_8-only"] if not out else []))), "search": search, "lines": draw(LINES), "entries": draw(ENTRIES), "r": draw(st.booleans())}

        cases = case()
        text = gen.one_of(st.text(st.characters(min_codepoint=1, max_codepoint=255, exclude_characters="\"\n"), min_size=1, max_size=30),
                          st.tuples(st.text(st.sampled_from("ab /.%\\_-:{;#\xe9"), min_size=1, max_size=6), st.integers(1, 900)).map(lambda t: (t[0] * t[1])[:t[1]]))
        flt = gen.one_of(st.fixed_dictionaries({"f": st.sampled_from(["safe", "iso8859_1", "utf_8"]), "builtin": text}),
                         st.fixed_dictionaries({"f": st.sampled_from(["safe", "iso8859_1", "utf_8"]), "table": text}), st.just({"f": "lower"}))
        item = gen.one_of(st.fixed_dictionaries({"seq": text, "filters": st.lists(flt, min_size=1, max_size=4)}), st.fixed_dictionaries({"ignore": st.lists(text, min_size=1, max_size=3)}))
        strings = st.fixed_dictionaries({"strings": st.lists(item, min_size=1, max_size=4), "form": st.integers(0, 1 << 30), "path": gen.one_of(st.just("rc"), st.integers(1, 230).map(lambda n: "r" * n))})
        return gen.one_of(*[cases] * 10, strings)

    def strings(self, env, case):
        """Strings of any kind and length, as -L -v tells about them."""
        w = env.fresh()
        path = os.path.join(w, B(case["path"]))
        with open(path, "wb") as f:
            f.write(conf.config_text(case["strings"], case["form"], lambda name: name))
        items = [dict(it, filters=[dict(f, path=f["table"]) if "table" in f else f for f in it["filters"]]) if "seq" in it else it for it in case["strings"]]
        seqs, ignored = layers.merge([(case["path"], items)])
        for more, verbose in ((["-L"], False), (["-L", "-v"], True)):
            rc, out, err = env.run([env.bin()] + more + ["-f", case["path"]], w)
            if rc != 0 or err:
                raise Violation("%s: status %d, %r" % (more, rc, err[:300]))
            layers.compare_listing(out, layers.listing(seqs, ignored, layers.choose(seqs, None), verbose), " ".join(more))
        return Outcome(len(out) > 100, ["strings of any kind", "long" if len(out) > 1000 else "short"])

    def fixed(self, env):
        base = {"form": 5, "search": {}, "lines": ["A b", "x (1)", "%41"], "entries": [["a b", "f"], ["{arch}", "d"], ["x (1)", "d"]], "r": True}
        out = []
        lower, cgi, wipe = [{"f": "lower"}], [{"f": "uncgi"}], [{"f": "wipeup", "trailing": True}, {"f": "safe"}]
        for sel in ({}, {"s": "lower"}, {"env": "uncgi"}, {"s": "utf_8", "env": "lower"}, {"s": "nope"}):
            out.append(dict(base, layers={}, select=sel))
        for form in range(12):  # every combination of layers with the same names in different orders
            for mask in range(1, 8):
                its = [[{"seq": "a", "filters": lower}, {"seq": "default", "filters": cgi}, {"ignore": ["a b"]}],
                       [{"seq": "default", "filters": wipe}, {"seq": "b", "filters": cgi}, {"ignore": ["x (1)"]}, {"ignore": ["a b"]}],
                       [{"ignore": ["{arch}"]}, {"seq": "b", "filters": wipe}, {"seq": "a", "filters": cgi}]]
                out.append(dict(base, form=form, layers={pl: its[i] for i, pl in enumerate(layers.PLACES) if mask >> i & 1}, select=[{}, {"s": "a"}, {"s": "b"}][form % 3]))
        two = {"home": [{"seq": "a", "filters": lower}], "xdg": [{"seq": "default", "filters": cgi}]}
        for home in (True, False, ""):
            for xdg in (True, False, ""):
                for have in (two, {"home": two["home"]}, {"xdg": two["xdg"]}):
                    out.append(dict(base, layers=have, home=home, xdg=xdg, select={}))
        its = [{"seq": "a", "filters": cgi}, {"ignore": ["a b"]}], [{"seq": "default", "filters": wipe}], [{"seq": "default", "filters": lower}, {"ignore": ["{arch}"]}]
        for mask in range(2, 8):  # the system file in one of three places or several
            for more in ({}, {"home": [{"seq": "b", "filters": lower}, {"ignore": ["x (1)"]}]}):
                out.append(dict(base, layers=dict({pl: its[i] for i, pl in enumerate(layers.SYSTEM) if mask >> i & 1}, **more), select={}))
            search = {}
            for i, folder in enumerate(["", "/usr/share/", "/usr/local/share/"]):
                if mask >> i & 1:
                    search.update({folder + n: {"rows": [[65, "abc"[i]], [0xA0, "q"]], "default": None, "form": i} for n in ("safe", "iso8859_1", "unicode")})
            for kind in ("safe", "iso8859_1", "utf_8"):
                out.append(dict(base, layers={"etc": [{"seq": "a", "filters": [{"f": kind}]}]}, search=search, select={}))
        for f in ([{"ignore": ["a b"]}], [], [{"seq": "a", "filters": lower}, {"seq": "a", "filters": cgi}]):
            out.append(dict(base, layers={"f": f}, select={}))
            out.append(dict(base, layers={"home": f}, select={}))
        for n in (15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1500, 2047, 2048):
            t = "s%d_" % n + "x" * n
            out.append({"strings": [{"seq": t[:n], "filters": [{"f": "utf_8", "builtin": t[:n]}, {"f": "safe", "table": t[:n]}, {"f": "iso8859_1", "table": "/" + t[:n - 1]}]}, {"ignore": [t[:n], "y"]}], "form": n, "path": t[:min(n, 230)]})
        for n in (1, 2, 255, 256, 257, 4096, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 8589934597, 18446744073709551617, 10 ** 30):
            out.append(dict(base, layers={"f": [{"seq": "a", "filters": [{"f": "max_length", "length": n}]}]}, select={}))
        return out

    def run(self, env, case):
        if "strings" in case:
            return self.strings(env, case)
        p = layers.Placed(env.fresh(), case, env.shims["fs"])
        seqs, _ = p.effective()
        used, changed = self.whole(env, p, case, case["select"], case["lines"], case["entries"])
        repeated = len(p.layers) > 1 or any(sum(1 for i in it if "seq" in i) > 1 for _, it in p.layers)
        return Outcome(bool(changed) and repeated, ["%d layers" % len(p.layers), "-f" if "f" in case["layers"] else "no -f", "chosen" if used is not None else "nothing to use"])


# ---------------------------------------------------------------------- refusals


CHUNK = re.compile(rb'"[^"\n]*"?|[a-zA-Z0-9_]+|[{};#]|[ \t]+|\n|.', re.S)
SNIPPETS = ["{", "}", ";", "};", "sequence", "ignore", "filename", "builtin", "safe", "safe;", "wipeup", "length", "12", "\"x\"", "name", "lower", "remove_trailing;", "\n", "\n\n\n",
            "# comment\n", "\"", "\"\n", "\"open", "}}", ";;", "max_length {length 3;};", "utf_8 { builtin unicode; };", "sequence x {};", "ignore {};", "sequence {lower;};", "0x10", "-5",
            "sequence x { lower; };", "ignore { filename y; };", "LOWER;", "default", "uncgi", "{}", "length 3;", "builtin \"safe\";", "filename;", "@", "\r\n", "\x80", "'a'", ",", "\0"]


def mutate(text, edits):
    for op, a, b, snip in edits:
        parts = CHUNK.findall(text) or [b""]
        i, j = a % len(parts), b % len(parts)
        if op == "delete":
            del parts[i]
        elif op == "double":
            parts.insert(i, parts[j])
        elif op == "swap":
            parts[i], parts[j] = parts[j], parts[i]
        elif op == "replace":
            parts[i] = B(snip)
        elif op == "insert":
            parts.insert(i, b" " + B(snip) + b" ")
        elif op == "cut":
            parts = parts[:i]
        elif op == "append":
            parts.append(B(snip))
        elif op == "line":
            ls = text.split(b"\n")
            del ls[a % len(ls)]
            parts = [b"\n".join(ls)]
        elif op == "blank":
            parts.insert(i, b"\n" * (1 + b % 5))
        text = b"".join(parts)
    return text


EDIT = st.tuples(st.sampled_from(["delete", "delete", "double", "swap", "replace", "insert", "insert", "cut", "append", "line", "blank"]), st.integers(0, 400), st.integers(0, 400), st.sampled_from(SNIPPETS)).map(list)
MODES = ["tree", "dry", "inline", "files", "list", "--inline"]
BROKEN = ["missing", "directory", "unreadable", "builtin", "dangling", "empty name", "no folder"]


def near(name):
    """Spellings that come close to a name without being it."""
    out = [name[:i] for i in range(1, len(name))] + [name[i:] for i in range(1, len(name))]
    out += [name + t for t in ("x", "_", " ", ".tbl", "-1", name)] + [" " + name, "builtin:" + name, name.upper(), name.capitalize(), name.replace("_", "-"), name.replace("1", "2")]
    return [t for t in out if t not in model.BUILTIN]


NO_BUILTIN = ["nope", "utf_8", "default", "latin1", "c_escape", "lower", "wipeup"] + [t for n in sorted(model.BUILTIN) for t in near(n)]


class C19(Whole):
    id = "C19"
    quick, thorough = 420, 9000
    rule = ("Generated config files, in one of the four places, are damaged by token and line edits and judged by an independent parser that gives the line of the first token that cannot "
            "continue the file; -f files that are missing, unreadable, directories or empty; sequences that do not exist; sequences of several filters of which one or none has a table "
            "that is missing, unreadable, a directory, dangling, or an unknown builtin, while other sequences may be broken. In each mode detox has to refuse with status, message, no "
            "output and an unchanged tree, or to work as the model says. Non-trivial: something had to be refused, or broken parts were not used.")

    def strategy(self, env):
        pool = ["default", "a", "b", "My Seq"]
        mode = st.sampled_from(MODES)

        @st.composite
        def text(draw):
            d = {"kind": "text", "items": draw(layers.items_strategy(4, pool, 1)), "form": draw(st.integers(0, 1 << 30)), "edits": draw(st.lists(EDIT, min_size=1, max_size=3)),
                 "place": draw(st.sampled_from(["f", "f", "etc", "home", "xdg"])), "mode": draw(mode), "select": draw(st.sampled_from([{}, {}, {"s": "a"}, {"env": "b"}]))}
            d["layers"] = {pl: draw(layers.items_strategy(2, pool, 1)) for pl in layers.PLACES if pl != d["place"] and draw(st.integers(0, 2)) == 0}
            return d

        file = st.fixed_dictionaries({"kind": st.just("file"), "what": st.sampled_from(["missing", "unreadable", "directory", "dangling", "no folder", "empty name", "empty", "comments", "long"]), "mode": mode,
                                      "again": st.booleans()})
        seq = st.fixed_dictionaries({"kind": st.just("seq"), "items": layers.items_strategy(4, pool, 0), "form": st.integers(0, 1 << 30), "name": st.sampled_from(["nope", "Default", "A", "a ", "", "my seq", "def", "defaultx", "safe"]),
                                     "how": st.sampled_from(["s", "env"]), "mode": mode, "config": st.booleans()})
        part = gen.one_of(conf.flt(), conf.flt(), st.sampled_from(["safe", "iso8859_1", "utf_8"]).map(lambda k: {"f": k, "broken": "missing"}),
                         st.tuples(st.sampled_from(["safe", "iso8859_1", "utf_8"]), gen.one_of(st.sampled_from(BROKEN), st.sampled_from(NO_BUILTIN).map(lambda n: "builtin:" + n))).map(lambda t: {"f": t[0], "broken": t[1]}))
        table = st.fixed_dictionaries({"kind": st.just("table"), "seqs": st.lists(st.lists(part, min_size=1, max_size=5).map(conf.tame), min_size=1, max_size=3), "use": st.integers(0, 2), "form": st.integers(0, 1 << 30), "mode": mode})
        texts = text()
        return gen.one_of(texts, texts, texts, texts, table, table, file, seq)

    def fixed(self, env):
        out = [{"kind": "file", "what": k, "mode": m, "again": a} for k in ("missing", "unreadable", "directory", "dangling", "no folder", "empty name", "empty", "comments", "long") for m in MODES for a in (False, True)]
        for kind in ("safe", "iso8859_1", "utf_8"):
            for b in BROKEN:
                for m in MODES:
                    out.append({"kind": "table", "seqs": [[{"f": "lower"}, {"f": kind, "broken": b}, {"f": "wipeup"}]], "use": 0, "form": 1, "mode": m})
                    out.append({"kind": "table", "seqs": [[{"f": "lower"}, {"f": "safe"}], [{"f": kind, "broken": b}]], "use": 0, "form": 1, "mode": m})
        for i, n in enumerate(NO_BUILTIN):
            for k, kind in enumerate(("safe", "iso8859_1", "utf_8")):
                out.append({"kind": "table", "seqs": [[{"f": kind, "broken": "builtin:" + n}, {"f": "lower"}]], "use": 0, "form": 1 + i, "mode": MODES[(i + k) % 4]})
        # every single token deleted, doubled, or replaced, in a file that has everything
        items = [{"seq": "a", "filters": [{"f": "uncgi"}, {"f": "lower"}, {"f": "safe", "builtin": "safe"}, {"f": "utf_8"}, {"f": "iso8859_1", "builtin": "cp1252"}, {"f": "wipeup", "trailing": True}, {"f": "max_length", "length": 20}]},
                 {"ignore": ["x", "y z"]}, {"seq": "default", "filters": [{"f": "wipeup"}]}]
        for form in (1, 2):
            for i in range(0, 140):
                for op, snip in (("delete", ""), ("double", ""), ("replace", "name"), ("replace", ";"), ("replace", "{"), ("cut", ""), ("insert", "\"open\n")):
                    out.append({"kind": "text", "items": items, "form": form, "edits": [[op, i, i, snip]], "place": "f", "mode": MODES[(i + form) % 3], "select": {}, "layers": {}})
        return out

    # -- what the modes do

    def start(self, env, w, mode, opts, envv):
        base = [os.fsencode(env.bin("inline-detox" if mode in ("inline", "files") else "detox"))] + [B(o) for o in opts]
        flat_tree(w, [["a b", "f"], ["C (1)", "d"], ["%41 x", "f"]])
        with open(os.path.join(w, b"in put"), "wb") as f:
            f.write(b"a b\n")
        more = {"tree": [b"-r", b"-v", b"tree"], "dry": [b"-n", b"tree"], "inline": [], "files": [b"in put"], "list": [b"-L"], "--inline": [b"--inline"]}[mode]
        before = fsx.full(w)
        rc, out, err = env.run(base + more, w, stdin=b"a b\nC (1)\n", env=envv)
        return before, rc, out, err

    @staticmethod
    def refused(w, before, rc, out, err, words):
        if rc == 0:
            raise Violation("accepted, status 0, instead of refused; output %r, errors %r" % (out[:300], err[:300]))
        if out:
            raise Violation("refused, but it wrote to standard output: %r" % out[:300])
        if fsx.full(w) != before:
            raise Violation("refused, but files changed")
        for t in words or [b""]:
            if t not in err or not err:
                raise Violation("the message does not mention %r: %r" % (t, err[:300]))

    def run(self, env, case):
        return getattr(self, "run_" + case["kind"])(env, case)

    def run_text(self, env, case):
        w = env.fresh()
        place = case["place"]
        p = layers.Placed(w, {"layers": dict(case["layers"], **{place: case["items"]}), "form": case["form"]})
        path = p.files[place]
        with open(path, "rb") as f:
            text = mutate(f.read(), case["edits"])
        with open(path, "wb") as f:
            f.write(text)
        opts, envv = list(p.opts), dict(p.env)
        if "s" in case["select"]:
            opts += ["-s", case["select"]["s"]]
        if "env" in case["select"]:
            envv["DETOX_SEQUENCE"] = case["select"]["env"]
        mode = case["mode"]
        printed = {"f": p.opts[1] if place == "f" else "", "etc": "pbtetc/detoxrc", "home": S(p.home) + "/.detoxrc", "xdg": S(p.xdg) + "/detox/detoxrc"}[place]
        try:
            items = confparse.parse(text)
        except confparse.Bad as bad:
            before, rc, out, err = self.start(env, w, mode, opts, envv)
            self.refused(w, before, rc, out, err, [B(printed)])
            if not re.search(rb"line %d\b" % bad.line, err):
                raise Violation("%s, but the message is %r, for the file\n%s" % (bad, err[:300], S(text)))
            return Outcome(True, ["syntax error", mode])
        except confparse.Unclear:
            before, rc, out, err = self.start(env, w, mode, opts, envv)
            if rc != 0:
                self.refused(w, before, rc, out, err, [])
            return Outcome(False, ["unclear"])
        lays = []
        for pl in layers.PLACES:
            if pl in p.files and place != "f":
                lays.append(({"etc": "pbtetc/detoxrc", "home": S(p.home) + "/.detoxrc", "xdg": S(p.xdg) + "/detox/detoxrc"}[pl], pl))
        if place == "f":
            lays = [(printed, "f")]
        # the tables of the other places keep their text forms, so read those files too
        merged = []
        for pr, pl in lays:
            if pl == place:
                merged.append((pr, items))
            else:
                with open(p.files[pl], "rb") as f:
                    merged.append((pr, confparse.parse(f.read())))
        seqs, ignored = layers.merge(merged)
        chosen = layers.choose(seqs, case["select"].get("s", case["select"].get("env")))
        before, rc, out, err = self.start(env, w, mode, opts, envv)
        if mode == "list":
            if rc != 0:
                raise Violation("status %d for a valid file: %r\n%s" % (rc, err[:300], S(text)))
            layers.compare_listing(out, layers.listing(seqs, ignored, chosen, False), "-L")
            return Outcome(False, ["valid", mode])
        if chosen is None:
            self.refused(w, before, rc, out, err, [])
            return Outcome(True, ["nothing to use", mode])
        bad = self.unusable(w, seqs[chosen][1])
        if bad is not None:
            self.refused(w, before, rc, out, err, [B(bad)])
            return Outcome(True, ["unusable table", mode])
        if rc != 0:
            raise Violation("status %d for a valid file: %r\n%s" % (rc, err[:300], S(text)))
        return Outcome(False, ["valid", mode])

    @staticmethod
    def unusable(w, filters):
        for f in filters:
            if f.get("builtin") and f["f"] in model.DEFAULT_BUILTIN and f["builtin"] not in model.BUILTIN:
                return f["builtin"]
            if f.get("path") is not None and "builtin" not in f:
                if not os.path.isfile(os.path.join(w, B(f["path"]))):
                    return f["path"]
            if f.get("builtin") == "" and f["f"] in model.DEFAULT_BUILTIN:
                return ""
        return None

    def run_file(self, env, case):
        w = env.fresh()
        what = case["what"]
        name = "some rc"
        path = os.path.join(w, b"some rc")
        if what == "unreadable":
            with open(path, "wb") as f:
                f.write(b"sequence default { lower; };\n")
            os.chmod(path, 0)
        elif what == "directory":
            os.mkdir(path)
        elif what == "dangling":
            os.symlink(b"nowhere", path)
        elif what == "no folder":
            name = "tree/in/some rc"
        elif what == "empty name":
            name = ""
        elif what == "long":
            name = "x" * 5000
        elif what in ("empty", "comments"):
            with open(path, "wb") as f:
                f.write(b"" if what == "empty" else b"# sequence default { lower; };\n\n  ")
        home = os.path.join(w, b"home")
        os.mkdir(home)
        with open(os.path.join(home, b".detoxrc"), "wb") as f:
            f.write(b"sequence default { lower; };\nsequence a { lower; };\n")
        opts = ["-f", name]
        if case["again"]:  # nothing else may stand in
            opts = ["-f", S(home) + "/.detoxrc", "-s", "a"] + opts
        before, rc, out, err = self.start(env, w, case["mode"], opts, {"HOME": S(home), "DETOX_SEQUENCE": "a"})
        if what in ("empty", "comments") and case["mode"] == "list":
            if rc != 0 or out != b"available sequences:\n":
                raise Violation("status %d, %r" % (rc, out[:300]))
        else:
            self.refused(w, before, rc, out, err, [B(name)] if what in ("missing", "unreadable", "dangling", "no folder", "long") else [])
        return Outcome(True, ["-f " + what, case["mode"]])

    def run_seq(self, env, case):
        w = env.fresh()
        p = layers.Placed(w, {"layers": {"home": case["items"]} if case["config"] else {}, "form": case["form"]})
        seqs, ignored = p.effective()
        opts, envv = list(p.opts), dict(p.env)
        if case["how"] == "s":
            opts += ["-s", case["name"]]
            if seqs:
                envv["DETOX_SEQUENCE"] = seqs[0][0]
        else:
            envv["DETOX_SEQUENCE"] = case["name"]
        before, rc, out, err = self.start(env, w, case["mode"], opts, envv)
        if case["mode"] == "list":
            if rc != 0:
                raise Violation("status %d: %r" % (rc, err[:300]))
            layers.compare_listing(out, layers.listing(seqs, ignored, layers.choose(seqs, case["name"]), False), "-L")
            return Outcome(False, ["list"])
        if case["name"] in [n for n, _, _ in seqs]:
            raise AssertionError("the name exists")
        self.refused(w, before, rc, out, err, [])
        return Outcome(True, ["no such sequence", case["mode"]])

    def run_table(self, env, case):
        w = env.fresh()
        items, use = [], case["use"] % len(case["seqs"])
        bad = []
        for i, seq in enumerate(case["seqs"]):
            filters = []
            for j, f in enumerate(seq):
                if "broken" not in f:
                    filters.append(f)
                    continue
                how, path = f["broken"], "bad_%s_%d_%d" % (f["f"], i, j)
                full = os.path.join(w, B(path))
                if how == "directory":
                    os.mkdir(full)
                elif how == "unreadable":
                    with open(full, "wb") as t:
                        t.write(b"start\n0x41 x\nend\n")
                    os.chmod(full, 0)
                elif how == "dangling":
                    os.symlink(b"nowhere", full)
                elif how == "empty name":
                    path = ""
                elif how == "no folder":
                    path = "none/" + path
                if how.startswith("builtin"):
                    path = how[8:] or "nope"
                    filters.append({"f": f["f"], "builtin": path})
                else:
                    filters.append({"f": f["f"], "table": path})
                if i == use:
                    bad.append(path)
            items.append({"seq": "s%d" % i, "filters": filters})
        p = layers.Placed(w, {"layers": {"f": items}, "form": case["form"]})
        # a path given as text stays what it is
        before, rc, out, err = self.start(env, w, case["mode"], p.opts + ["-s", "s%d" % use], p.env)
        if case["mode"] == "list" or not bad:
            if rc != 0:
                raise Violation("status %d although no unusable table is in use: %r" % (rc, err[:300]))
            if case["mode"] in ("inline", "--inline"):
                filters = [dict(f, table=conf.table_model(f["table"])) if isinstance(f.get("table"), dict) else f for f in case["seqs"][use]]
                want = b"".join(model.clean(filters, x) + b"\n" for x in (b"a b", b"C (1)"))
                if out != want:
                    raise Violation("%r instead of %r" % (out, want))
            return Outcome(len(case["seqs"]) > 1, ["not used", case["mode"]])
        self.refused(w, before, rc, out, err, [B(bad[0])])
        return Outcome(True, ["unusable table", case["mode"]])


# ----------------------------------------------------------------------- options


CONFIGS = {
    "rc A": [{"seq": "a", "filters": [{"f": "lower"}]}, {"seq": "b", "filters": [{"f": "uncgi"}]}, {"ignore": ["In Side"]}],
    "rcB": [{"seq": "b", "filters": [{"f": "safe"}]}, {"seq": "default", "filters": [{"f": "wipeup", "trailing": True}]}, {"seq": "a", "filters": [{"f": "safe"}, {"f": "lower"}]}],
    "-rc": [{"seq": "My Seq", "filters": [{"f": "lower"}, {"f": "wipeup"}]}],
}
OPT_SEQS = ["a", "b", "default", "lower", "uncgi-only", "My Seq", "lower-only", "iso8859_1", "nope", "-n", "A", ""]
ARGS = ["A b", "Dir (1)", "D%41 x", "__x__", "L ink", "-Weird", "--special", "-r", "gone", "no (file)", "plain", "./Q q", "Sub Dir/", "Fi Fo", "n%2e"]
SPELL = {"n": ["-n", "-n", "--dry-run"], "r": ["-r", "-r", "--recursive"], "v": ["-v", "-v", "--verbose"], "special": ["--special"], "inline": ["--inline"], "L": ["-L"], "h": ["-h", "--help"], "V": ["-V"]}
CALLED = ["abs", "abs", "bare", "./", "../", "deep/", "odd dir/", "inline-detox/"]  # by which path the program is called
CANON = {"n": "-n", "r": "-r", "v": "-v", "L": "-L", "h": "-h", "V": "-V"}


def command_line(words, dice):
    """Spells a list of options and arguments: [kind, value] each."""
    out = []
    group = None  # index in out of a group of short flags that can grow
    for k, v in words:
        if k in ("s", "f"):
            how = dice(4)
            if group is not None and how == 0:
                out[group] += k + v if v and dice(2) else k
                if out[group].endswith(k) and not out[group].endswith(k + v):
                    out.append(v)
                elif not v:
                    out.append(v)
            elif how == 1 and v:
                out.append("-" + k + v)
            else:
                out += ["-" + k, v]
            group = None
        elif k == "arg":
            out.append(v)
            group = None
        elif k == "--":
            out.append("--")
            group = None
        else:
            short = k in CANON
            if short and group is not None and dice(2):
                out[group] += CANON[k][1]
            else:
                t = SPELL[k][dice(len(SPELL[k]))]
                out.append(t)
                group = len(out) - 1 if not t.startswith("--") else None
    return out


class C24(Prop):
    id = "C24"
    quick, thorough = 1200, 16000
    rule = ("Random command lines: options in long, short, grouped and attached forms, repeated, in any order and mixed with arguments (files, folders, links, missing and odd names, before "
            "and after --), DETOX_SEQUENCE, and programs detox and inline-detox, over several config files. A model of the documented options gives listing, output, status and final names. "
            "Non-trivial: at least two options and something other than usage or help.")

    def strategy(self, env):
        flag = st.sampled_from(["n", "r", "r", "v", "v", "special", "r"]).map(lambda k: [k, None])
        seqopt = st.sampled_from(OPT_SEQS).map(lambda n: ["s", n])
        fileopt = st.sampled_from(list(CONFIGS) + ["none at all"]).map(lambda n: ["f", n])
        rare = st.sampled_from([["L", None], ["L", None], ["inline", None], ["inline", None], ["h", None], ["V", None]])
        arg = st.sampled_from(ARGS).map(lambda n: ["arg", n])
        word = gen.one_of(flag, flag, flag, seqopt, seqopt, fileopt, arg, arg, arg, arg)

        @st.composite
        def case(draw):
            ws = draw(st.lists(word, max_size=9))
            if draw(st.integers(0, 2)) == 0:
                ws.insert(draw(st.integers(0, len(ws))), draw(rare))
            tail = []
            if draw(st.booleans()):
                tail = [["--", None]] + draw(st.lists(arg, max_size=4))
            return {"words": ws + tail, "env": draw(st.sampled_from([None, None, None, "a", "b", "lower-only", "nope", ""])), "program": draw(st.sampled_from(["detox"] * 4 + ["inline-detox"])),
                    "home": draw(st.sampled_from([None, None, "rc A", "rcB", "-rc"])), "form": draw(st.integers(0, 1 << 30)), "stdin": draw(st.sampled_from(["A b\n%41 C\n__x__\n", "", "Q q"])), "called": draw(st.sampled_from(CALLED))}

        return case()

    def run(self, env, case):
        w = env.fresh()
        for n, items in CONFIGS.items():
            conf.write_config(w, n, items, len(n))
        home = os.path.join(w, b"home")
        os.mkdir(home)
        if case["home"]:
            os.link(os.path.join(w, B(case["home"])), os.path.join(home, b".detoxrc"))
        # what the arguments name, in a folder of their own
        t = os.path.join(w, b"t")
        os.mkdir(t)
        for n in ARGS:
            p = os.path.join(t, B(n.rstrip("/").replace("./", "")))
            if n in ("gone", "no (file)"):
                continue
            if n in ("Dir (1)", "Sub Dir/", "D%41 x"):
                os.mkdir(p)
                os.mkdir(os.path.join(p, b"In Side"))
                for q in (b"In Side/Deep (x)", b"__f__", b".Hid den"):
                    with open(os.path.join(p, q), "wb"):
                        pass
                os.symlink(b"Nowhere X", os.path.join(p, b"Sym Link"))
            elif n == "L ink":
                os.symlink(b"Dir (1)", p)
            elif n == "Fi Fo":
                os.mkfifo(p)
            else:
                with open(p, "wb") as f:
                    f.write(b"Li ne %41\n__x__\n" + B(n) + b"\n")
        # reading the words
        words, seen_end, args, opt = [], False, [], {}
        final = None
        for k, v in case["words"]:
            if k == "arg":
                if v in args:
                    continue
                if v.startswith("-") and not seen_end:
                    continue
                args.append(v)
            elif k in ("h", "V"):
                final = final or k
            elif k == "--":
                seen_end = True
            elif k in ("s", "f"):
                opt[k] = v
                if k == "f":
                    v = v if v.startswith("-") and False else S(w) + "/" + v
                    opt[k] = v
            else:
                opt[k] = True
            words.append([k, v])
        # a fifo read inline would block; leave it to the tree mode
        inline = opt.get("inline") or case["program"] == "inline-detox"
        if inline and "Fi Fo" in args:
            args.remove("Fi Fo")
            words = [x for x in words if x != ["arg", "Fi Fo"]]
        line = command_line(words, conf.Dice(case["form"]))
        envv = {"HOME": S(home), "DETOX_SEQUENCE": case["env"]}
        before_all = fsx.full(w)
        before = fsx.snapshot(t)
        for e in before:
            e.path = os.path.relpath(e.path, t)
        called = case.get("called", "abs")
        exe = os.fsencode(env.bin(case["program"]))
        name = exe if called == "abs" else B({"bare": ""}.get(called, called) + case["program"])
        rc, out, err = env.run([name] + [B(x) for x in line], t, stdin=B(case["stdin"]), env=envv, executable=exe)
        shown = "%s %r" % (S(name), line)

        def fail(text):
            raise Violation("%s: %s (status %d, output %r, errors %r)" % (shown, text, rc, out[:400], err[:400]))

        def untouched():
            if fsx.full(w) != before_all:
                fail("files changed: %r" % sorted(os.listdir(t)))

        nopts = len([1 for k, _ in words if k not in ("arg", "--")])
        if final:
            if rc != 0 or not out or err:
                fail("help or version expected")
            if final == "h" and (b"usage: " + B(case["program"]) not in out or b"-s sequence" not in out):
                fail("help expected")
            if final == "V" and (out.count(b"\n") != 1 or not re.search(rb"\d+\.\d+", out)):
                fail("version expected")
            untouched()
            return Outcome(False, ["help or version"])
        # the configuration that counts
        if not args and not inline and not opt.get("L"):
            if rc == 0 or b"usage" not in out + err:
                fail("usage and a failure status expected")
            untouched()
            return Outcome(False, ["nothing to do"])
        if "f" in opt and opt["f"].endswith("none at all"):
            if rc == 0 or out or not err:
                fail("a missing config file has to be refused")
            untouched()
            return Outcome(True, ["missing config file"])
        if "f" in opt:
            lays = [(opt["f"], CONFIGS[opt["f"][len(S(w)) + 1:]])]
        elif case["home"]:
            lays = [(S(home) + "/.detoxrc", CONFIGS[case["home"]])]
        else:
            lays = []
        if lays:
            seqs, ignored = layers.merge(lays)
        else:
            seqs, ignored = [(n, fl, layers.BUILTIN_SOURCE) for n, fl in model.SHIPPED.items()], ["{arch}"]
        chosen = layers.choose(seqs, opt.get("s", case["env"]))
        if opt.get("L"):
            if rc != 0 or err:
                fail("a listing expected")
            layers.compare_listing(out, layers.listing(seqs, ignored, chosen, opt.get("v")), shown)
            untouched()
            return Outcome(nopts > 1, ["listing"])
        if chosen is None:
            if rc == 0 or out or not err:
                fail("a sequence that does not exist has to be refused")
            untouched()
            return Outcome(nopts > 1, ["no such sequence"])
        fl = seqs[chosen][1]
        if rc != 0:
            fail("status 0 expected")
        for a in args:
            if a in ("gone", "no (file)"):
                if B(a) not in err:
                    fail("%r is missing, which is not reported" % a)
        if inline:
            want = b""
            untouched()
            if args:
                for a in args:
                    p = os.path.join(t, B(a))
                    if os.path.isfile(p) and not (os.path.islink(p) and os.path.isdir(p)):
                        with open(p, "rb") as f:
                            want += b"".join(model.clean(fl, x) + b"\n" for x in f.read().split(b"\n")[:-1])
            else:
                data = B(case["stdin"]).split(b"\n")
                want = b"".join(model.clean(fl, x) + b"\n" for x in data[:-1]) + (model.clean(fl, data[-1]) if data[-1] else b"")
            if out != want:
                fail("expected the lines %r" % want[:400])
            return Outcome(nopts > 1, ["inline", case["program"]])
        # a tree run
        recurse, special, dry, verbose = opt.get("r"), opt.get("special"), opt.get("n"), opt.get("v")
        renames = {}  # path before -> new name, for entries that have to be renamed

        def consider(rel, named):
            base = rel.rsplit(b"/", 1)[-1]
            if not named and (base.startswith(b".") or base in map(B, ignored)):
                return False
            new = model.clean(fl, base)
            if new != base and model.valid_name(new):
                renames[rel] = new
            return True

        kinds = {e.path: e.kind for e in before}
        for a in args:
            rel = B(a)
            trailing = rel.endswith(b"/")
            rel = os.path.normpath(rel)
            if rel not in kinds:
                continue
            k = kinds[rel]
            if k in "lp" and not special:
                continue
            if not trailing:
                consider(rel, True)
            if k == "d":
                for path in sorted(kinds):
                    if not path.startswith(rel + b"/"):
                        continue
                    below = path[len(rel) + 1:].split(b"/")
                    if any(x.startswith(b".") or x in map(B, ignored) for x in below):
                        continue
                    if len(below) > 1 and not recurse:
                        continue
                    if kinds[path] in "lp" and not special:
                        continue
                    consider(path, False)
        taken = [(os.path.dirname(r), n) for r, n in renames.items()]
        if len(set(taken)) != len(taken) or any((d + b"/" + n if d else n) in kinds for d, n in taken):
            return Outcome(False, ["competing names"])
        if dry:
            untouched()
        else:
            after = fsx.snapshot(t)
            for b_, a_ in fsx.pairs(before, after, lambda n: model.clean(fl, n)):
                want = renames.get(b_.path, b_.name)
                if a_.name != want:
                    fail("%r became %r instead of %r" % (b_.path, a_.name, want))
        got = [x for x in out.split(b"\n") if x]
        scans = [x for x in got if x.startswith(b"Scanning: ")]
        arrows = [x for x in got if x not in scans]
        if verbose:
            if scans != [b"Scanning: " + B(a) for a in args]:
                fail("a Scanning line for each argument expected")
        elif scans:
            fail("no Scanning line expected without -v")
        if verbose or dry:
            ends = sorted(x.split(b" -> ", 1)[-1].rsplit(b"/", 1)[-1] for x in arrows)
            if ends != sorted(renames.values()):
                fail("announced %r, expected renames to %r" % (arrows, sorted(renames.values())))
        elif arrows:
            fail("no output expected without -v and -n")
        return Outcome(nopts > 1 and bool(renames), ["tree", "dry" if dry else "real", "verbose" if verbose else "quiet", "after --" if seen_end else "no --"])
