"""Checks under injected failures, starvation and sudden death."""

import os
import re

from hypothesis import strategies as st

from .. import gen

from .. import fsx, model
from ..engine import Outcome, Prop, Violation
from ..names import B, S, family, fs_name
from ..treerun import Plan, argv, filters_of, lines, plan_case, seq, setup_seq
from .runs import arrows
from .tree import cleaner

ERRNO = {"rename": [13, 1, 5, 28, 30, 16, 36, 18, 39, 17, 122, 12, 2, 20, 21, 22, 40, 31],
         "lstat": [5, 13, 36, 40, 12, 75, 1, 116],
         "opendir": [13, 5, 24, 23, 12, 2, 20, 40],
         "readdir": [5, 75, 9, 2]}
FATAL = {12, 23, 24}


def unquote(text):
    return re.sub(rb"%([0-9a-f]{2})", lambda m: bytes([int(m.group(1), 16)]), text)


def read_log(path):
    """[(call, errno, path, second path)], (calls, allocations)"""
    out, end = [], None
    try:
        with open(path, "rb") as f:
            data = f.read()
    except FileNotFoundError:
        return out, end
    for line in data.split(b"\n"):
        w = line.split(b" ")
        if w[0] == b"end":
            end = (int(w[1]), int(w[2]))
        elif len(w) >= 3:
            out.append((S(w[0]), int(w[1]), unquote(w[2]), unquote(w[3]) if len(w) > 3 else None))
    return out, end


FAMILY = gen.one_of(family(4), fs_name().map(lambda n: [n]), st.sampled_from([["a b", "a_b", "c d"], ["x y", "z&z", "dir one", "dir (2)"], ["p q", "p  q", "r!", "s?t"]]))
FAST = st.sampled_from(["default", "default", "lower", "utf_8"]).map(lambda n: {"shipped": n})


class Faulty:
    """One materialised tree and a command to run on it."""

    def __init__(self, env, case, tree, i):
        self.env = env
        self.w = os.path.join(os.fsencode(env.home), b"case", b"%d" % i)
        os.mkdir(self.w)
        self.log = S(os.path.join(os.fsencode(env.home), b"case", b"log%d" % i))
        self.opts = setup_seq(case["seq"], self.w)
        self.plan = Plan(self.w, case, None, tree)

    def run(self, **shim):
        p = self.plan
        envv = {"PBT_LOG": self.log}
        envv.update(shim)
        check = "PBT_KILL" not in shim
        return self.env.run(argv(self.env, p.opts() + self.opts, p.args), p.cwd, env=envv, preload=self.env.shims["fs"], check=check)


def unlock(d, modes):
    s = os.lstat(d)
    if s.st_uid == os.geteuid():
        os.chmod(d, modes.get(s.st_ino, 0o755))
    for n in os.listdir(d):
        q = os.path.join(d, n)
        if os.path.isdir(q) and not os.path.islink(q):
            unlock(q, modes)


class C22(Prop):
    id = "C22"
    level = "fault_enumeration"
    shims = ["fs"]
    quick, thorough = 300, 6000
    rule = ("A run over a generated tree is first recorded, then repeated on fresh copies with one to three of its calls made to fail (rename, lstat, opendir, "
            "readdir with various error codes; or the n-th memory request; or directories without permissions). All entries have to survive under their old or cleaned "
            "names, failed renames have to be reported and not announced, entries that no failed call concerns have to be dealt with as usual, and "
            "starvation has to end in a message and a failure status. Non-trivial: a failure took place in a run that had something to rename.")

    def strategy(self, env):
        fault = st.tuples(st.sampled_from(["rename", "rename", "lstat", "lstat", "lstat", "opendir", "readdir"]), st.integers(0, 400), st.integers(0, 40)).map(list)
        return plan_case(fsx.nodes(FAMILY, 5, 2, kinds="fffddlhs"), seq(max_filters=2), faults=st.lists(st.lists(fault, min_size=1, max_size=3), min_size=1, max_size=5),
                         mallocs=st.lists(st.integers(0, 3000), max_size=3), modes=gen.one_of(st.just([]), st.lists(st.sampled_from([0o755, 0o555, 0o555, 0o333, 0o000, 0o444, 0o311]), min_size=1, max_size=6)))

    def fixed(self, env):
        """Each call and each memory request of a run over many entries in turn."""
        tree = [["A %d" % i, "f", i, 0o644] for i in range(34)] + [["B b", "d", [["C %d" % i, "f", i, 0o644] for i in range(19)], 0o755], ["D", "d", [], 0o755]]
        out = []
        for style in ("t", "children"):
            base = {"tree": tree, "seq": {"shipped": "lower-only"}, "flags": {"r": True, "special": False, "v": style == "t"}, "style": style, "root": "t", "picks": [0] * 36, "deep": 0, "modes": [], "mallocs": [], "faults": []}
            out += [dict(base, mallocs=list(range(i, i + 25))) for i in range(0, 700, 25)]
            for kind, n in (("rename", 57), ("lstat", 180), ("readdir", 60), ("opendir", 3)):
                out += [dict(base, faults=[[[kind, k, k * 7 + j]] for k in range(i, i + 6)]) for j in range(2) for i in range(0, n, 6)]
        return out

    def run(self, env, case):
        env.fresh()
        clean = cleaner(filters_of(case["seq"]))
        tree = fsx.tidy(case["tree"], fsx.no_newlines)
        first = Faulty(env, case, tree, 0)
        if not first.plan.args:
            return Outcome(False)
        rc, out, err = first.run()
        if rc != 0:
            raise Violation("status %d: %r" % (rc, err[:500]))
        log, end = read_log(first.log)
        counts = {}
        for c in log:
            counts[c[0]] = counts.get(c[0], 0) + 1
        fired = 0
        labels = []
        n = 1
        for group in case["faults"]:
            spec = []
            for kind, at, err_no in group:
                if counts.get(kind):
                    spec.append("%s:%d:%d" % (kind, 1 + at % counts[kind], ERRNO[kind][err_no % len(ERRNO[kind])]))
            if not spec:
                continue
            f = Faulty(env, case, tree, n)
            n += 1
            rc, out, err = f.run(PBT_FAIL=",".join(spec))
            failed = [c for c in read_log(f.log)[0] if c[1]]
            if failed:
                fired += 1
                labels += ["%s failed" % c[0] for c in failed]
            self.judge(f.plan, clean, failed, rc, out, err, spec)
        for at in case["mallocs"]:
            if not end or not end[1]:
                continue
            f = Faulty(env, case, tree, n)
            n += 1
            rc, out, err = f.run(PBT_MALLOC="%d" % (1 + at % end[1]))
            self.survived(f.plan, clean)
            if any(c[0] == "nomem" for c in read_log(f.log)[0]):
                fired += 1
                labels.append("no memory")
                if rc == 0 or b"memory" not in err:
                    raise Violation("memory request %d of %d failed: status %d, standard error %r" % (1 + at % end[1], end[1], rc, err[:300]))
        if case["modes"] and case["style"] != ".":
            f = Faulty(env, case, tree, n)
            if self.locked(env, f, clean, case["modes"]):
                labels.append("no permission")
        return Outcome(fired > 0 and counts.get("rename", 0) > 0, labels)

    @staticmethod
    def survived(p, clean):
        after = fsx.snapshot(p.w)
        fsx.same_population(p.before, after)
        matched = fsx.pairs(p.before, after, clean)
        for b, a in matched:
            if a.name != b.name and (not p.processed(b) or a.name != clean(b.name)):
                raise Violation("%r was renamed to %r" % (b.path, a.name))
        return matched

    def judge(self, p, clean, failed, rc, out, err, spec):
        matched = self.survived(p, clean)
        what = "with %s (%s): " % (",".join(spec), ["%s %r" % (c[0], c[2]) for c in failed])
        ren = sum(a.name != b.name for b, a in matched)
        fatal = any(c[1] in FATAL for c in failed)
        if p.flags["v"] and len(arrows(out)) != ren:
            raise Violation(what + "%d entries renamed, %d renames announced: %r" % (ren, len(arrows(out)), out[:500]))
        final = {}
        for b, a in matched:
            final[os.path.normpath(os.path.join(p.cwd, p.printed(a.path)))] = (b, a)
        # a failed rename is reported, and its entry keeps its name
        for call, code, one, two in failed:
            if call != "rename":
                continue
            if not os.path.lexists(os.path.join(p.cwd, one)):
                raise Violation(what + "%r is gone" % one)
            if b"Cannot rename %s to %s" % (one, two) not in err:
                raise Violation(what + "no message about %r in %r" % (one, err[:500]))
        # so is what could not be read or examined (what is gone meanwhile needs no message)
        for call, code, one, two in failed:
            if call == "lstat" and code != 2 and one not in err:
                raise Violation(what + "%r could not be examined, but no message names it: %r" % (one, err[:500]))
            if call in ("opendir", "readdir") and not err.strip():
                raise Violation(what + "%r could not be read, but there is no message" % one)
        if fatal:
            return
        if rc != 0:
            raise Violation(what + "status %d, %r" % (rc, err[:300]))
        excused_paths, excused_below = set(), set()
        for call, code, one, two in failed:
            path = os.path.normpath(os.path.join(p.cwd, one))
            if call in ("opendir", "readdir"):
                excused_below.add(path)
            else:
                excused_paths.add(path)
                if call == "lstat":
                    excused_below.add(path)
        self.rest(p, clean, matched, excused_paths, excused_below, what)

    @staticmethod
    def rest(p, clean, matched, excused_paths, excused_below, what):
        """Everything that no failure concerns was dealt with."""
        by_dir = {}
        for b, a in matched:
            by_dir.setdefault(b.parent, []).append((b, a))
        for group in by_dir.values():
            for b, a in group:
                want = clean(b.name)
                if not p.processed(b) or want == b.name or not model.valid_name(want) or a.name == want:
                    continue
                up = os.path.dirname(a.path)
                if a.path in excused_paths or os.path.join(up, want) in excused_paths:
                    continue
                if any((up + b"/").startswith(x + b"/") for x in excused_below):
                    continue
                if any(x is not b and (x.name == want or y.name == want) for x, y in group):
                    continue
                raise Violation(what + "%r was not renamed to %r, which has nothing to do with the failure" % (b.path, want))

    @staticmethod
    def told(p, matched, mode_of, what, err):
        """What could not be opened or examined was reported."""
        for b, a in matched:
            inside = [x for x, y in matched if x.parent == b.ino and p.processed(x)]
            if b.kind != "d" or not inside or (p.style == "children" and b.ino == p.root_ino):
                continue
            # the directories above it, of which the last unsearchable one decides
            above = [x for x, y in matched if x.kind == "d" and (b.path + b"/").startswith(x.path + b"/") and x is not b]
            if any(mode_of.get(x.ino, 0o755) & 0o500 != 0o500 for x in above):
                continue
            mode = mode_of.get(b.ino, 0o755)
            if mode & 0o400 == 0 and not err.strip():
                raise Violation(what + "%r could not be opened, but there is no message" % b.path)
            if mode & 0o500 == 0o400:
                for x in inside:
                    if p.printed(a.path) + b"/" + x.name not in err:
                        raise Violation(what + "%r could not be examined, but no message names it: %r" % (x.path, err[:500]))

    def locked(self, env, f, clean, modes):
        p = f.plan
        dirs = sorted((e for e in p.before if e.kind == "d" and (e.path + b"/").startswith(p.root + b"/")), key=lambda e: -len(e.path))
        mode_of = {}
        dirs = [e for e in dirs if os.lstat(e.path).st_uid == os.geteuid()]
        for i, e in enumerate(dirs):
            mode_of[e.ino] = modes[i % len(modes)]
            os.chmod(e.path, mode_of[e.ino])
        if os.geteuid() == 0:
            return False
        try:
            rc, out, err = f.run()
        finally:
            unlock(p.w, {e.ino: e.mode & 0o7777 for e in p.before if e.kind == "d"})
        matched = self.survived(p, clean)
        what = "with modes %s: " % ["%o" % m for m in modes]
        if rc != 0:
            raise Violation(what + "status %d: %r" % (rc, err[:300]))
        if p.flags["v"] and len(arrows(out)) != sum(a.name != b.name for b, a in matched):
            raise Violation(what + "announced %r" % out[:500])
        self.told(p, matched, mode_of, what, err)
        below = set()
        for b, a in matched:
            if b.kind == "d" and mode_of.get(b.ino, 0o755) & 0o700 != 0o700:
                below.add(a.path)
                if mode_of[b.ino] == 0o555 and not any((a.path + b"/").startswith(x + b"/") for x in below if x != a.path):
                    reach = all(mode_of.get(x.ino, 0o755) & 0o500 == 0o500 for x, y in matched if x.kind == "d" and (b.path + b"/").startswith(x.path + b"/"))
                    for x, y in matched:
                        want = clean(x.name)
                        if reach and x.parent == b.ino and p.processed(x) and want != x.name and b"Cannot rename %s/%s to " % (p.printed(a.path), x.name) not in err:
                            raise Violation(what + "no message about %r: %r" % (x.path, err[:500]))
        self.rest(p, clean, matched, set(), below, what)
        return bool(below)


class C26(Prop):
    id = "C26"
    level = "fault_enumeration"
    shims = ["fs"]
    quick, thorough = 300, 6000
    rule = ("A run over a generated tree without competing names is recorded; fresh copies are then killed just before one of its calls (every call of small runs, "
            "chosen ones otherwise), sometimes several times in a row. After each kill every entry has to be there under its old or cleaned name, and "
            "running the command again has to give the tree of the uninterrupted run. Non-trivial: a kill that left some entries renamed and some not.")

    def strategy(self, env):
        return plan_case(fsx.nodes(gen.one_of(FAMILY, fs_name().map(lambda n: [n])), 5, 2, kinds="fffdddlhs"), FAST, style=st.sampled_from(["t", ".", "abs"]), root=st.just("t"),
                         points=st.lists(st.lists(st.integers(0, 1000), min_size=1, max_size=3), min_size=2, max_size=10), every=st.sampled_from([False] * 9 + [True]))

    def run(self, env, case):
        env.fresh()
        clean = cleaner(filters_of(case["seq"]))

        def stays(n):
            c = S(clean(B(n)))
            return "x" + n if c.startswith(".") or c == "{arch}" or S(clean(B(c))) != c else n

        tree = fsx.separate(fsx.tidy(fsx.tidy(case["tree"], fsx.no_newlines), stays), clean)
        tree = [n for n in tree]
        first = Faulty(env, case, tree, 0)
        rc, out, err = first.run()
        if rc != 0:
            raise Violation("status %d: %r" % (rc, err[:500]))
        log, end = read_log(first.log)
        if not end or not end[0]:
            return Outcome(False)
        total = end[0]
        renames = [i + 1 for i, c in enumerate(log) if c[0] == "rename"]
        target = self.shape(first.w)
        points = []
        for group in case["points"]:
            points.append([renames[(x // 3) % len(renames)] + x % 2 if renames and x % 3 else 1 + x % total for x in group])
        if case["every"] and total <= 80:
            points += [[k] for k in range(1, total + 1)]
        part = 0
        for n, group in enumerate(points):
            f = Faulty(env, case, tree, n + 1)
            for k in group:
                rc, out, err = f.run(PBT_KILL="%d" % k)
                if rc not in (0, -9):
                    raise Violation("killed before call %d: status %d, %r" % (k, rc, err[:300]))
                matched = C22.survived(f.plan, clean)
                done = sum(a.name != b.name for b, a in matched)
                if rc == -9 and 0 < done < len(renames):
                    part += 1
            rc, out, err = f.run()
            if rc != 0:
                raise Violation("status %d: %r" % (rc, err[:500]))
            C22.survived(f.plan, clean)
            now = self.shape(f.w)
            if now != target:
                raise Violation("killed before call %s (of %d), then run again: missing %r, instead %r" % (
                    group, total, sorted(target - now)[:5], sorted(now - target)[:5]))
            fsx_remove(f.w)
        return Outcome(part > 0, ["partly done" if part else "all or nothing", "points: %d" % min(len(points), 20)])

    @staticmethod
    def shape(w):
        return {(os.path.relpath(e.path, w), e.kind, e.data) for e in fsx.snapshot(w)}


def fsx_remove(path):
    from ..engine import wipe

    wipe(S(path))


_ = lines
