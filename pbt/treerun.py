"""Shared pieces of the checks that run detox on trees."""

import os

from hypothesis import strategies as st

from . import gen

from . import conf, fsx, model
from .engine import Violation
from .names import B, S

SEQS = ["default", "iso8859_1", "iso8859_1-legacy", "utf_8", "uncgi", "lower", "iso8859_1-only", "cp1252-only", "utf_8-only", "uncgi-only", "lower-only"]


def seq(custom=True, shipped=SEQS, kinds=None, max_filters=4):
    """{"shipped": name} or {"custom": [filters], "form": n}"""
    s = st.sampled_from(shipped).map(lambda n: {"shipped": n})
    if not custom:
        return s
    c = st.fixed_dictionaries({"custom": conf.filter_list(max_filters, kinds=kinds), "form": st.integers(0, 1 << 30)})
    return gen.one_of(s, s, c)


def filters_of(spec):
    if "shipped" in spec:
        return model.SHIPPED[spec["shipped"]]
    return conf.as_model(spec["custom"])


def setup_seq(spec, folder, ignore=None):
    """Writes what the sequence needs into folder; returns the options."""
    if "shipped" in spec and not ignore:
        return ["-s", spec["shipped"]]
    if "shipped" in spec:
        filters = [dict(f) for f in model.SHIPPED[spec["shipped"]]]
        name, form = spec["shipped"], 0
    else:
        filters, name, form = spec["custom"], "s", spec["form"]
    items = [{"seq": name, "filters": filters}]
    if ignore:
        items.insert(form % 2, {"ignore": ignore})
    path = conf.write_config(folder, "rc", items, form)
    return ["-f", S(path), "-s", name]


def argv(env, opts, args, program="detox", variant="plain"):
    return [os.fsencode(env.bin(program, variant))] + [B(o) for o in opts] + [b"--"] + [B(a) for a in args]


def lines(data):
    return data.split(b"\n")


def in_scope(root_ino, recurse, special, ignore):
    """processed(entry) for a single directory argument, by position."""

    def decide(before):
        by_ino = {e.ino: e for e in before if e.kind == "d"}
        memo = {}

        def reachable(dir_ino):
            """The scan gets to the entries of this directory."""
            if dir_ino == root_ino:
                return True
            if dir_ino in memo:
                return memo[dir_ino]
            e = by_ino.get(dir_ino)
            ok = bool(e) and recurse and not hidden(e) and reachable(e.parent)
            memo[dir_ino] = ok
            return ok

        def hidden(e):
            return e.name.startswith(b".") or e.name in ignore

        def processed(e):
            if not reachable(e.parent) or hidden(e):
                return False
            return e.kind in "df" or special

        return processed

    return decide


def scope(before, tops, named, recurse, special, ignore):
    """processed(entry) for any set of arguments: tops are inodes of directories
    whose contents are gone through, named are (parent inode, name) pairs."""
    by_ino = {e.ino: e for e in before if e.kind == "d"}
    memo = {}

    def hidden(e):
        return e.name.startswith(b".") or e.name in ignore

    def entered(ino):
        if ino in tops:
            return True
        if ino not in memo:
            e = by_ino.get(ino)
            memo[ino] = bool(e) and ((e.parent, e.name) in named or (recurse and not hidden(e) and entered(e.parent)))
        return memo[ino]

    def processed(e):
        if e.kind not in "df" and not special:
            return False
        return (e.parent, e.name) in named or (entered(e.parent) and not hidden(e))

    return processed


class Plan:
    """A tree on disk with the arguments and options of a run over it."""

    def __init__(self, w, case, filters, tree=None):
        self.w = w
        self.flags = case["flags"]
        self.style = case["style"]
        self.root_name = B(case.get("root", "t"))
        self.base = w
        for i in range(case.get("deep", 0)):
            self.base = os.path.join(self.base, b"%d" % i + b"n" * 199)
        os.makedirs(self.base, exist_ok=True)
        self.root = os.path.join(self.base, self.root_name)
        os.mkdir(self.root)
        self.tree = case["tree"] if tree is None else tree
        fsx.materialize(self.tree, self.root)
        self.cwd = w
        work_ino, root_ino = os.lstat(self.base).st_ino, os.lstat(self.root).st_ino
        self.root_ino = root_ino
        tops, named = set(), set()
        rn = os.path.relpath(S(self.root), S(w))
        if self.style == "children":
            kids = [n[0] for n in self.tree]
            picks = []
            for i in case.get("picks", []):
                if kids:
                    picks.append(kids.pop(i % len(kids)))
            self.args = [rn + "/" + k for k in picks]
            named = {(root_ino, B(k)) for k in picks}
            self.prefix = lambda rel: rel
        elif self.style == ".":
            self.cwd, self.args = self.root, ["."]
            tops = {root_ino}
            above = B(rn)
            self.prefix = lambda rel: b"." + rel[len(above):]
        else:
            named = {(work_ino, self.root_name)}
            if self.style == "abs":
                self.args = [S(self.root)]
                self.prefix = lambda rel: w if rel == b"." else os.path.join(w, rel)
            elif self.style == "./":
                self.args = ["./" + rn]
                self.prefix = lambda rel: b"." if rel == b"." else b"./" + rel
            else:
                self.args = [rn]
                self.prefix = lambda rel: rel
        self.before = fsx.snapshot(w)
        self.processed = scope(self.before, tops, named, self.flags["r"], self.flags["special"], set(model.SHIPPED_IGNORE) if "shipped" in case["seq"] else set())

    def opts(self, **over):
        f = dict(self.flags, **over)
        return (["-r"] if f["r"] else []) + (["--special"] if f["special"] else []) + (["-v"] if f["v"] else [])

    def rel(self, path):
        return os.path.relpath(path, self.w)

    def printed(self, path):
        return self.prefix(self.rel(path))


STYLES = ["t", "t", "abs", "./", ".", "children", "children"]


DEEP = [0] * 20 + [1, 5, 10]  # directories with long names above the tree


def plan_case(tree, seqs, **more):
    d = {"tree": tree, "seq": seqs,
         "flags": st.fixed_dictionaries({"r": st.sampled_from([True, True, False]), "special": st.booleans(), "v": st.booleans()}),
         "style": st.sampled_from(STYLES), "root": st.sampled_from(["t", "t", "t t (1)", "_t"]),
         "picks": st.lists(st.integers(0, 30), max_size=8), "deep": st.sampled_from(DEEP)}
    d.update(more)
    return st.fixed_dictionaries(d)


def has_slash_name(name):
    return b"/" in name


def overlong(before, clean):
    return any(len(clean(e.name)) > 255 for e in before)


__all__ = [n for n in dir() if not n.startswith("__")]
_ = (fsx, Violation)
