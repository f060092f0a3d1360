"""Checks of whole runs: what is announced, repeated, reordered, blocked."""

import os
import subprocess

from hypothesis import strategies as st

from .. import gen

from .. import conf, fsx, model, names, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S, family, fs_name, long_name
from ..treerun import Plan, argv, filters_of, lines, plan_case, seq, setup_seq
from .tree import cleaner

FAMILY = gen.one_of(family(), family(), fs_name().map(lambda n: [n]), st.lists(fs_name(), min_size=2, max_size=6),
                   long_name().map(lambda n: [n if n not in (".", "..") else "a b"]))


def arrows(out):
    return [x.split(b" -> ", 1) for x in lines(out) if b" -> " in x]


def ok(rc, out, err):
    if rc != 0:
        raise Violation("status %d: %r %r" % (rc, out[:500], err[:500]))


def complained(err):
    """What is on standard error apart from the filters' warnings.  Those may
    quote a name that holds a newline while it is being cleaned."""
    rest = [x for x in lines(err) if x and not x.startswith((b"detox: warning", b"warning: "))]
    if b"warning: max_length" in err:
        rest = [x for x in rest if not x.endswith(b"giving up.")]
    return rest


class C05(Prop):
    id = "C05"
    quick, thorough = 1100, 10000
    rule = ("Generated trees are run with -n or --dry-run and any other options: everything lstat tells about every entry (times of change included, not "
            "of access) has to be the same afterwards. Then the same command runs for real, and on trees without competing names its renames have to be "
            "exactly the lines the dry run printed, with the same exit status. Non-trivial: at least one rename was announced.")

    # names that decode to something that is not a name: those are announced by neither
    DECODED = st.lists(gen.one_of(fs_name(["%2F", "%2f", "a", "b", ".", "%2e", "%00", "%20", "%252F", " "], 5, newline=False),
                                  st.sampled_from(["%2F", "%2Ftmp", "a%2Fb", "..%2Fa", "%2e", "%2E%2E", "%00", "%00a", "a%00b"])), min_size=1, max_size=4)

    def strategy(self, env):
        opts = dict(dry=st.sampled_from(["-n", "--dry-run"]), compete=st.just(False), missing=st.booleans(), inline=st.just(False))
        uncgi = st.sampled_from([{"shipped": "uncgi-only"}, {"shipped": "uncgi"}, {"custom": [{"f": "uncgi"}, {"f": "uncgi"}], "form": 0}])
        decoded = plan_case(fsx.nodes(gen.one_of(self.DECODED, self.DECODED, FAMILY), 6, 2), uncgi, **opts)
        return gen.one_of(*[self.usual()] * 6, decoded)

    def usual(self):
        return plan_case(fsx.nodes(FAMILY, 6, 2), seq(), dry=st.sampled_from(["-n", "--dry-run"]), compete=st.sampled_from([False, False, False, True]),
                         missing=st.sampled_from([False, False, True]), inline=st.sampled_from([False] * 7 + [True]))

    def run(self, env, case):
        w = env.fresh()
        clean = cleaner(filters_of(case["seq"]))
        opts = setup_seq(case["seq"], w)
        tree = fsx.tidy(case["tree"], fsx.no_newlines)
        if not case["compete"]:
            tree = fsx.separate(tree, clean)
        p = Plan(w, case, None, tree)
        args = p.args + (["not/there"] if case["missing"] else [])
        if not args:
            return Outcome(False)
        before = fsx.full(w)
        if case["inline"]:
            rc, out, err = env.run(argv(env, ["--inline", case["dry"]] + p.opts() + opts, []), p.cwd, stdin=b"a b\n")
            if fsx.full(w) != before:
                raise Violation("an inline run with %s changed the tree" % case["dry"])
        rc, out, err = env.run(argv(env, [case["dry"]] + p.opts() + opts, args), p.cwd)
        after = fsx.full(w)
        if after != before:
            diff = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
            raise Violation("the dry run changed something: %r\n%r\n%r" % (sorted(diff)[:4], [before.get(k) for k in sorted(diff)[:4]], [after.get(k) for k in sorted(diff)[:4]]))
        said = lines(out)
        if said[-1] != b"":
            raise Violation("no newline at the end of %r" % out)
        scans = [x for x in said[:-1] if x.startswith(b"Scanning: ")]
        if scans != ([b"Scanning: " + B(a) for a in args] if p.flags["v"] else []):
            raise Violation("with arguments %r: %r" % (args, scans))
        said = [x for x in said[:-1] if not x.startswith(b"Scanning: ")]
        rc2, out2, err2 = env.run(argv(env, p.opts() + opts, args), p.cwd)
        now = fsx.snapshot(w)
        fsx.same_population(p.before, now)
        if rc2 != rc:
            raise Violation("status %d for the dry run, %d for the real one" % (rc, rc2))
        if not case["compete"]:
            want = []
            for b, a in fsx.pairs(p.before, now, clean):
                if a.name != b.name:
                    want.append(p.printed(b.path) + b" -> " + os.path.join(os.path.dirname(p.printed(b.path)), a.name))
            norm = [x.replace(b"//", b"/") for x in said]
            want = [y for x in want for y in lines(x)]  # a decoded name may hold a newline
            if sorted(norm) != sorted(want):
                extra = [x for x in norm if x not in want]
                gone = [x for x in want if x not in norm]
                raise Violation("announced but not done: %r\ndone but not announced: %r" % (extra[:5], gone[:5]))
        return Outcome(bool(said), [case["style"], "competing" if case["compete"] else "exact", "announced" if said else "nothing to do"])


IDEMPOTENT = ["default", "lower", "utf_8"]


class C06(Prop):
    id = "C06"
    quick, thorough = 1200, 9000
    rule = ("Batches of names go through inline mode twice, with the builtin and shipped configurations, and trees through two runs (the second one "
            "with -v). Non-trivial: the first pass changed something.")

    ALPHA = names.ALL + names.RUNS * 3 + ["#", "_", "-", ".", "#-", "_#", ".-", "-."] * 3

    def prepare(self, env):
        stream.prepare_shipped(env)

    def strategy(self, env):
        text = st.fixed_dictionaries({"lines": stream.lines_of(gen.one_of(stream.words(self.ALPHA), stream.dense([".", "-", "_", "#", "a", " ", "(", "&", "\xc2\xa0", "\xe2\x80\x8b", "\xe2\x80\x90"]))),
                                      "name": st.sampled_from(IDEMPOTENT), "route": st.sampled_from(stream.ROUTES)})
        tree = plan_case(fsx.nodes(FAMILY, 6, 2), st.sampled_from(IDEMPOTENT).map(lambda n: {"shipped": n}))
        return gen.one_of(text, tree)

    def fixed(self, env):
        short = [t for t in stream.all_strings(".-_#a", 5) if t]
        out = [{"lines": x, "name": n, "route": "builtin"} for n in IDEMPOTENT for x in stream.chunks(short, 1000)]
        return out

    def run(self, env, case):
        w = env.fresh()
        if "lines" in case:
            opts = stream.route_opts(env, w, case["name"], case["route"])
            cmd = [os.fsencode(env.bin("inline-detox"))] + [B(o) for o in opts]
            data = b"".join(B(x) + b"\n" for x in case["lines"])
            rc, once, err = env.run(cmd, w, stdin=data)
            ok(rc, once, err)
            if len(lines(once)) != len(lines(data)):
                raise Violation("%d lines became %d" % (len(lines(data)), len(lines(once))))
            rc, twice, err = env.run(cmd, w, stdin=once)
            ok(rc, twice, err)
            if once != twice:
                for g, a, b in zip(lines(data), lines(once), lines(twice)):
                    # a name that is not one any more when cleaned is never given
                    if a != b and len(a) <= stream.MAX_LINE:
                        raise Violation("%r became %r, and that became %r" % (g, a, b))
            return Outcome(once != data, ["inline", case["name"]])
        clean = cleaner(filters_of(case["seq"]))
        opts = setup_seq(case["seq"], w)
        p = Plan(w, case, None, fsx.tidy(case["tree"], fsx.no_newlines))
        if not p.args:
            return Outcome(False)
        rc, out, err = env.run(argv(env, p.opts() + opts, p.args), p.cwd)
        ok(rc, out, err)
        mid = fsx.snapshot(w)
        fsx.same_population(p.before, mid)
        first = fsx.pairs(p.before, mid, clean)
        blocked = {(a.parent, a.name) for b, a in first if p.processed(b) and clean(b.name) != b.name and a.name == b.name}
        now = {(b.parent, b.name): (a.parent, a.name) for b, a in first}
        if p.style == "children":
            args = []
            for a in p.args:
                d, n = now[(p.root_ino, os.path.basename(B(a)))]
                args.append(os.path.dirname(a) + "/" + S(n))
        else:
            found = os.path.basename(fsx.find(p.base, p.root_ino))
            args = [a if a == "." else a[: len(a) - len(S(p.root_name))] + S(found) for a in p.args]
        rc, out, err = env.run(argv(env, p.opts(v=True) + opts, args), p.cwd)
        ok(rc, out, err)
        end = fsx.snapshot(w)
        fsx.same_population(mid, end)
        moved = 0
        for b, a in fsx.pairs(mid, end, clean):
            if a.name != b.name:
                moved += 1
                if (b.parent, b.name) not in blocked:
                    raise Violation("the second run renamed %r to %r" % (b.path, a.name))
        if len(arrows(out)) != moved:
            raise Violation("the second run renamed %d entries and said %r" % (moved, out[:500]))
        if not blocked and complained(err):
            raise Violation("the second run complained: %r" % err[:300])
        ren = sum(1 for b, a in first if a.name != b.name)
        return Outcome(ren > 0, ["tree", "blocked" if blocked else "free"])


def permuting():
    """Sequences that keep changing their own output."""
    letters = [ord(c) for c in "abcdexyz_-. %"]
    letters.remove(ord("."))
    reps = st.sampled_from(["aa", "ab", "ba", "b", "c", "d", "a", "x", "_a", "z-", "%41", "%2541", "", "xx", "e", "yy_"])
    rows = st.lists(st.tuples(st.sampled_from(letters), reps).map(list), min_size=1, max_size=6)
    table = st.fixed_dictionaries({"rows": rows, "default": st.sampled_from([None, None, None, "q"]), "form": st.integers(0, 1000)})
    grow = gen.one_of(table.map(lambda t: {"f": "safe", "table": t}), table.map(lambda t: {"f": "utf_8", "table": t}),
                     st.just({"f": "uncgi"}), st.integers(1, 9).map(lambda n: {"f": "max_length", "length": n}))
    custom = st.fixed_dictionaries({"custom": st.lists(grow, min_size=1, max_size=2), "form": st.integers(0, 1000)})
    return gen.one_of(custom, custom, st.just({"shipped": "uncgi-only"}), st.just({"shipped": "uncgi"}), st.just({"shipped": "default"}),
                     st.just({"shipped": "iso8859_1"}), st.just({"shipped": "iso8859_1-only"}))


class C07(Prop):
    id = "C07"
    shims = ["fs"]
    quick, thorough = 600, 9000
    rule = ("Trees with names that go on changing when cleaned again (tables that map a to aa, %2541, chains of tables) are run with a preloaded readdir "
            "that returns entries in an order given by the case, looks for new names at the end, leaves out types, and mixes in names of entries that are "
            "gone; sometimes with hundreds of entries in a directory. Each entry has to end with its name cleaned exactly once, or kept when taken; without "
            "competition the tree has to be the same for several orders. Non-trivial: a renamed entry whose new name would change again.")

    def strategy(self, env):
        toks = ["a", "b", "c", "x", "y", "z", "_", "-", ".", " ", "%2541", "%41", "%252541", "aa", "ab", "\xe9", "%2520", "d", "e", "1", "2"]
        name = fs_name(toks, 5, newline=False)
        pools = st.lists(name, min_size=1, max_size=9, unique=True)
        orders = st.lists(st.tuples(st.integers(0, 1 << 20), st.sampled_from([1, 1, 1, 3, 5, 7, 0, 4])).map(list), min_size=1, max_size=3)
        return plan_case(fsx.nodes(pools, 9, 2, kinds="ffffdl"), permuting(), orders=orders, compete=st.booleans(), many=st.sampled_from([0] * 12 + [40, 150, 400]))

    def run(self, env, case):
        clean = cleaner(filters_of(case["seq"]))
        tree = case["tree"]
        if case["many"]:
            tree = tree + [["%s%d b" % ("ab"[i % 2], i), "f", i, 0o644] for i in range(case["many"])]
        if not case["compete"]:
            tree = fsx.separate(tree, clean)
        else:
            tree = fsx.tidy(tree, lambda n: n)
        seen = None
        twice = renamed = 0
        for seed, flags in case["orders"]:
            w = env.fresh()
            opts = setup_seq(case["seq"], w)
            p = Plan(w, case, None, tree)
            if not p.args:
                return Outcome(False)
            rc, out, err = env.run(argv(env, p.opts() + opts, p.args), p.cwd, preload=env.shims["fs"], env={"PBT_DIR": "%d:%d" % (seed, flags)})
            ok(rc, out, err)
            after = fsx.snapshot(w)
            fsx.same_population(p.before, after)
            ren, blocked = fsx.judge(p.before, after, p.processed, clean)
            renamed += ren
            if b"gone" in out or b"gone" in err:
                raise Violation("an entry that does not exist was dealt with: %r %r" % (out[:300], err[:300]))
            if ren != len(arrows(out)) and p.flags["v"]:
                raise Violation("%d entries have a new name, %d renames announced: %r" % (ren, len(arrows(out)), out[:500]))
            if not case["compete"]:
                if blocked:
                    raise Violation("%d entries kept their names although nothing competes: %r" % (blocked, err[:300]))
                paths = sorted(os.path.relpath(e.path, w) for e in after)
                if seen is not None and seen != paths:
                    raise Violation("the result depends on the order of entries: %r or %r" % (
                        [x for x in seen if x not in paths][:5], [x for x in paths if x not in seen][:5]))
                seen = paths
            for b, a in fsx.pairs(p.before, after, clean):
                if a.name != b.name and clean(a.name) != a.name:
                    twice += 1
        return Outcome(twice > 0, ["competing" if case["compete"] else "free", "many" if case["many"] else "few", "renamed" if renamed else "none"])


def lock(plan, picks):
    """Makes some directories read-only; what is in them cannot be renamed."""
    dirs = sorted((e for e in plan.before if e.kind == "d" and os.lstat(e.path).st_uid == os.geteuid()), key=lambda e: e.path)
    dirs = {dirs[i % len(dirs)].path: dirs[i % len(dirs)].ino for i in picks if dirs}
    for d in dirs:
        os.chmod(d, 0o555)
    plan.before = fsx.snapshot(plan.w)
    return set(dirs.values())


LOCKED = gen.one_of(st.just([]), st.lists(st.integers(0, 20), max_size=3))


class C27(Prop):
    id = "C27"
    quick, thorough = 800, 9000
    rule = ("Trees whose names come from families that clean to the same result, of every kind of entry, as directories or as lists of arguments in any "
            "order, some of them in read-only directories, are cleaned; from the tree afterwards it follows which entries were blocked, and standard error has to hold one 'Cannot rename' line for "
            "each of them and for no other. Non-trivial: an entry was blocked while another one was renamed.")

    def strategy(self, env):
        return plan_case(fsx.nodes(gen.one_of(family(), family(), family(), st.just(["x y", "x_y", "x  y", "_x y", "x__y", "x_ y", "x_y "])), 8, 2, kinds="fffdddlphs"),
                         seq(), v=st.booleans(), locked=gen.one_of(st.just([]), LOCKED))

    def run(self, env, case):
        w = env.fresh()
        clean = cleaner(filters_of(case["seq"]))
        opts = setup_seq(case["seq"], w)
        p = Plan(w, case, None, fsx.tidy(case["tree"], fsx.no_newlines))
        if not p.args:
            return Outcome(False)
        rival = os.path.join(p.base, clean(p.root_name))
        if case["style"] == "t" and len(case["picks"]) % 2 and model.valid_name(clean(p.root_name)) and len(clean(p.root_name)) <= 255 and not os.path.lexists(rival):
            # a competitor for the argument's own name
            with open(rival, "wb") as f:
                f.write(b"in the way")
            p.before = fsx.snapshot(w)
        shut = lock(p, case.get("locked", []))
        rc, out, err = env.run(argv(env, p.opts() + opts, p.args), p.cwd)
        ok(rc, out, err)
        after = fsx.snapshot(w)
        fsx.same_population(p.before, after)
        ren, blocked = fsx.judge(p.before, after, lambda e: p.processed(e) and e.parent not in shut, clean)
        matched = fsx.pairs(p.before, after, clean)
        want = []
        for b, a in matched:
            c = clean(b.name)
            if not p.processed(b) or c == b.name or a.name != b.name or b"\n" in c:
                continue
            d = p.printed(os.path.dirname(a.path))
            d = b"" if d == b"." and p.style not in (".", "./") else d + b"/"
            want.append((b"Cannot rename %s%s to " % (d, b.name), (d + c, c) if not model.valid_name(c) else (d + c,)))
        if any(b"\n" in clean(b.name) for b, a in matched):
            return Outcome(False, ["newline in a cleaned name"])
        said = lines(err)
        if said.pop() != b"":
            raise Violation("no newline at the end of %r" % err)
        said = [x for x in said if x in complained(err)]
        for start, news in want:
            hit = [m for m in said if any(m.startswith(start + n + b":") for n in news)]
            if not hit:
                raise Violation("no message %r about %r" % (start, news))
            said.remove(hit[0])
        if said and not (b"warning: max_length" in err and any(b"%" in b.name for b, a in matched)):
            raise Violation("messages that are not about a blocked entry: %r" % said)
        if p.flags["v"]:
            if len(arrows(out)) != ren:
                raise Violation("%d entries were renamed, and announced %r" % (ren, arrows(out)))
        elif out:
            raise Violation("standard output: %r" % out[:300])
        # one of those that compete for a free name gets it
        groups = {}
        for b, a in matched:
            groups.setdefault((b.parent, clean(b.name)), []).append((b, a))
        for (d, c), g in groups.items():
            if len(g) > 1 and d not in shut and all(p.processed(b) for b, a in g) and all(b.name != c for b, a in g) and model.valid_name(c) and not any(
                    b.name == c and b.parent == d for b, a in matched):
                n = sum(a.name == c for b, a in g)
                if n != 1:
                    raise Violation("%d of %r got the name %r" % (n, [b.path for b, a in g], c))
        return Outcome(ren > 0 and (blocked > 0 or bool(want)), [case["style"], "blocked" if blocked else "free"] + (["read-only directories"] if shut else []))


class C28(Prop):
    id = "C28"
    quick, thorough = 600, 9000
    rule = ("Runs with -v over generated trees and arguments: the 'old -> new' lines, replayed in order with rename(2) on a second copy of the tree, have "
            "to give the final tree, each being possible when its turn comes (some directories are read-only, so that renames in them fail); 'Scanning' lines match the arguments. Without -v standard output has to be "
            "empty, and standard error too when nothing was blocked. Non-trivial: two or more renames were replayed.")

    def strategy(self, env):
        return plan_case(fsx.nodes(FAMILY, 6, 3, kinds="ffddddlphs"), seq(), missing=st.sampled_from([-1, -1, 0, 3]), verbose=st.sampled_from(["-v", "--verbose", "-vv"]),
                         locked=LOCKED)

    def run(self, env, case):
        w = env.fresh()
        clean = cleaner(filters_of(case["seq"]))
        w1, w2 = os.path.join(w, b"1"), os.path.join(w, b"2")
        os.mkdir(w1)
        os.mkdir(w2)
        opts = setup_seq(case["seq"], w)
        tree = fsx.tidy(case["tree"], fsx.no_newlines)
        if any(b"\n" in clean(B(x[-1])) or b" -> " in clean(B(x[-1])) for x, _ in fsx.walk(tree)):
            return Outcome(False, ["newline in a cleaned name"])
        copy = Plan(w2, case, None, tree)
        p = Plan(w1, case, None, tree)
        shut = lock(p, case["locked"])
        args = list(p.args)
        if case["missing"] >= 0:
            args.insert(min(case["missing"], len(args)), "no such/thing")
        if not args:
            return Outcome(False)
        flags = (["-r"] if p.flags["r"] else []) + (["--special"] if p.flags["special"] else [])
        rc, out, err = env.run(argv(env, flags + [case["verbose"]] + opts, args), p.cwd)
        ok(rc, out, err)
        after = fsx.snapshot(w1)
        fsx.same_population(p.before, after)
        ren, blocked = fsx.judge(p.before, after, lambda e: p.processed(e) and e.parent not in shut, clean)
        said = lines(out)
        if said.pop() != b"":
            raise Violation("no newline at the end of %r" % out)
        scans, done = [], 0
        for x in said:
            if x.startswith(b"Scanning: "):
                scans.append(x[10:])
                continue
            if x.count(b" -> ") != 1:
                raise Violation("what is this line? %r" % x)
            old, new = x.split(b" -> ")
            if p.style == "abs":
                if not (old + b"/").startswith(w1 + b"/") or not (new + b"/").startswith(w1 + b"/"):
                    raise Violation("%r is not about the tree given" % x)
                old, new = w2 + old[len(w1):], w2 + new[len(w1):]
            old, new = os.path.join(copy.cwd, old), os.path.join(copy.cwd, new)
            if os.path.lexists(new) or not os.path.lexists(old) or os.path.dirname(old) != os.path.dirname(new):
                raise Violation("the rename %r is not possible at that point\n%r" % (x, out))
            os.rename(old, new)
            done += 1
        if scans != [B(a) for a in args]:
            raise Violation("arguments %r, scanning %r" % (args, scans))
        if sorted(os.path.relpath(e.path, w1) for e in after) != sorted(os.path.relpath(e.path, w2) for e in fsx.snapshot(w2)):
            raise Violation("replaying %r gives %r, the tree is %r" % (out, sorted(os.path.relpath(e.path, w2) for e in fsx.snapshot(w2)), sorted(os.path.relpath(e.path, w1) for e in after)))
        if done != ren:
            raise Violation("%d entries were renamed and %d renames announced" % (ren, done))
        complaints = case["missing"] >= 0 or any(
            p.processed(b) and clean(b.name) != b.name and a.name == b.name for b, a in fsx.pairs(p.before, after, clean))
        if bool(complained(err)) != complaints:
            raise Violation("standard error: %r" % err[:300])
        # the same command on the copy's fresh twin, without -v
        w3 = os.path.join(w, b"3")
        os.mkdir(w3)
        q = Plan(w3, case, None, tree)
        lock(q, case["locked"])
        qargs = [S(w3 + B(a)[len(w1):]) if B(a).startswith(w1 + b"/") else a for a in args]
        rc, out, err = env.run(argv(env, flags + opts, qargs), q.cwd)
        ok(rc, out, err)
        if out:
            raise Violation("standard output without -v: %r" % out[:300])
        if bool(complained(err)) != complaints:
            raise Violation("standard error without -v: %r" % err[:300])
        return Outcome(done > 1, [case["style"], "blocked" if blocked else "free", "replayed" if done else "nothing"] + (["read-only directories"] if shut else []))


class C23(Prop):
    id = "C23"
    quick, thorough = 6, 150
    rule = ("Large inputs of one kind at a time: arguments (up to 4000 in the quick tier, 30000 in the thorough one, reordered, repeated or split over several runs), entries in a "
            "directory, levels of nesting up to the path limit, ignored names, sequences, filters, tables, rows of a table, files of input with all kinds of ends; sizes include every multiple of the "
            "list's growth step and its neighbours up to 65. Everything has to be dealt with, whatever its place. Non-trivial: ten or more of the thing.")
    SIZES = [0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65]

    def strategy(self, env):
        big = 30000 if env.tier == "thorough" else 4000
        n = gen.one_of(st.integers(0, 70), st.integers(0, 400), st.integers(400, big))
        small = gen.one_of(st.integers(1, 70), st.integers(1, 700))
        return gen.one_of(
            st.fixed_dictionaries({"kind": st.just("args"), "n": n, "how": st.sampled_from(["once", "repeat", "split", "shuffle"]), "salt": st.integers(0, 1000)}),
            st.fixed_dictionaries({"kind": st.just("entries"), "n": n, "salt": st.integers(0, 1000), "dirs": st.booleans()}),
            st.fixed_dictionaries({"kind": st.just("levels"), "n": st.integers(1, 800), "salt": st.integers(0, 1000), "long": st.sampled_from([False, True, "short"])}),
            st.fixed_dictionaries({"kind": st.just("inputs"), "n": n, "salt": st.integers(0, 1000)}),
            st.fixed_dictionaries({"kind": st.just("stream"), "n": st.integers(1, 100000), "salt": st.integers(0, 1000)}),
            st.fixed_dictionaries({"kind": st.just("ignored"), "n": small, "salt": st.integers(0, 1000)}),
            st.fixed_dictionaries({"kind": st.just("sequences"), "n": small, "salt": st.integers(0, 1000)}),
            st.fixed_dictionaries({"kind": st.just("filters"), "n": st.integers(1, 90), "salt": st.integers(0, 1000)}),
            st.fixed_dictionaries({"kind": st.just("tables"), "n": small, "salt": st.integers(0, 1000)}),
            st.fixed_dictionaries({"kind": st.just("rows"), "n": gen.one_of(st.integers(1, 3000), st.integers(3000, 60000)), "salt": st.integers(0, 1000)}))

    def fixed(self, env):
        out = [{"kind": "args", "n": n, "how": h, "salt": n} for n in self.SIZES for h in ("once", "repeat", "split")]
        out += [{"kind": "entries", "n": n, "salt": n, "dirs": bool(n & 1)} for n in self.SIZES + [500, 2000]]
        out += [{"kind": k, "n": max(n, 1), "salt": n} for n in self.SIZES for k in ("ignored", "sequences", "filters")]
        out += [{"kind": "levels", "n": n, "salt": n + k, "long": g} for n in (1, 2, 15, 16, 17, 64, 1000) for g in (False, True) for k in ((0, 1, 2) if n > 16 else (0,))]
        out += [{"kind": "levels", "n": 2000, "salt": k, "long": "short"} for k in range(3)]
        out += [{"kind": k, "n": n, "salt": n} for k, n in (("ignored", 1100), ("ignored", 5000), ("ignored", 66000), ("sequences", 1100), ("sequences", 4200), ("filters", 1100), ("filters", 2100))]
        out += [{"kind": "rows", "n": n, "salt": n} for n in (1, 2, 499, 500, 501, 502, 999, 1000, 5000, 20000, 70000)]
        out += [{"kind": "inputs", "n": n, "salt": n + k} for n in self.SIZES + [255, 256, 257, 1100, 2000] for k in ((0, 1) if n > 60 else (0,))]
        out += [{"kind": "inputs", "n": n, "salt": k} for n in (3, 70, 300) for k in range(48)]
        out += [{"kind": "tables", "n": n, "salt": k} for n in (1, 2, 17, 64, 65, 100, 300) for k in range(8)]
        out += [{"kind": "stream", "n": n, "salt": k} for k in range(4) for n in (1, 70000, 150000 if k == 1 else 900000)]
        out += [{"kind": k, "n": n, "salt": n} for k in ("ignored", "sequences", "filters") for n in (255, 256, 257, 300)]
        # beyond what 16 bits count
        out += [{"kind": "args", "n": 66000, "how": "once", "salt": 1}, {"kind": "entries", "n": 66000, "salt": 1, "dirs": False}, {"kind": "entries", "n": 33000, "salt": 2, "dirs": False}]
        out += [{"kind": "entries", "n": 900, "salt": k, "dirs": True} for k in range(3)]
        return out

    def run(self, env, case):
        w = env.fresh()
        getattr(self, case["kind"])(env, w, case)
        return Outcome(case["n"] >= 10, [case["kind"], "%d or more" % (10 ** (len(str(case["n"])) - 1)) if case["n"] else "none"])

    @staticmethod
    def expect(folder, names_):
        now = set(os.listdir(folder))
        if now != set(names_):
            raise Violation("missing: %r, not expected: %r (of %d)" % (sorted(set(names_) - now)[:5], sorted(now - set(names_))[:5], len(names_)))

    def args(self, env, w, case):
        n, salt = case["n"], case["salt"]
        d = os.path.join(w, b"t")
        os.mkdir(d)
        for i in range(n):
            with open(os.path.join(d, b"f %d (%d)" % (i, salt)), "wb"):
                pass
        args = ["t/f %d (%d)" % (i, salt) for i in range(n)]
        want = [b"f_%d-%d-" % (i, salt) for i in range(n)]
        want = [model.run_filters(model.SHIPPED["default"], b"f %d (%d)" % (i, salt)) for i in range(n)]
        if case["how"] == "shuffle":
            args = [args[(i * 7919 + salt) % n] for i in range(n)] if n and n % 7919 else args
        runs = [args]
        if case["how"] == "split":
            k = salt % 5 + 2
            runs = [args[i::k] for i in range(k)]
        elif case["how"] == "repeat":
            runs = [args + args]
        for r in runs:
            if not r:
                continue
            rc, out, err = env.run(argv(env, ["-v"], r), w, files=[None, 64][salt % 2], timeout=120)
            ok(rc, out, err)
            said = lines(out)
            scans = [x for x in said if x.startswith(b"Scanning: ")]
            if scans != [b"Scanning: " + B(a) for a in r]:
                raise Violation("%d arguments, %d scanned, or in another order" % (len(r), len(scans)))
            gone = r[len(args):] if case["how"] == "repeat" else []
            if lines(err)[:-1] and not gone or len(lines(err)) - 1 != len(gone):
                raise Violation("standard error: %r" % err[:300])
        self.expect(d, want)

    def entries(self, env, w, case):
        n, salt = case["n"], case["salt"]
        d = os.path.join(w, b"t")
        os.mkdir(d)
        want = []
        for i in range(n):
            name = b"e %d %d" % (i, salt)
            if i % 50 == salt % 50:
                name += b"x" * (255 - len(name) - salt % 3)
            want.append(name.replace(b" ", b"_"))
            if case["dirs"] and i % 3 == 0:
                os.mkdir(os.path.join(d, name))
                with open(os.path.join(d, name, b"in side"), "wb"):
                    pass
            else:
                with open(os.path.join(d, name), "wb"):
                    pass
        rc, out, err = env.run(argv(env, ["-r"], ["t"]), w, timeout=120, files=[None, 64][salt % 2])
        ok(rc, out, err)
        self.expect(d, want)
        if case["dirs"]:
            for i in range(0, n, 3):
                self.expect(os.path.join(d, want[i]), [b"in_side"])
        if out or err:
            raise Violation("output: %r %r" % (out[:300], err[:300]))

    def levels(self, env, w, case):
        """A chain of directories, each with a file, as deep as paths go."""
        salt = case["salt"]
        unit = {True: "d %d " % (salt % 10) + "x" * 200, False: "d %d" % (salt % 10), "short": "A"}[case["long"]]
        clean_unit = unit.replace(" ", "_").lower()
        opts = ["-r"] + (["-s", "lower"] if case["long"] == "short" else [])
        n, length = 0, 1
        cwd = os.getcwd()
        os.chdir(w)
        try:
            os.mkdir("t")
            os.chdir("t")
            while n < case["n"]:
                length += 1 + len(unit)
                if length + 6 > 4000:
                    break
                os.mkdir(unit)
                with open("f i", "wb"):
                    pass
                os.chdir(unit)
                n += 1
            with open("f i", "wb"):
                pass
        finally:
            os.chdir(cwd)
        try:
            rc, out, err = env.run(argv(env, opts, ["t"]), w, timeout=120, files=[None, 64, 200][salt % 3])
            ok(rc, out, err)
            if out or err:
                raise Violation("output: %r %r" % (out[:300], err[:300]))
            os.chdir(os.path.join(w, b"t"))
            for i in range(n + 1):
                now = set(os.listdir("."))
                want = {"f_i", clean_unit} if i < n else {"f_i"}
                if now != want:
                    raise Violation("level %d of %d holds %r instead of %r" % (i, n, sorted(now), sorted(want)))
                if i < n:
                    os.chdir(clean_unit)
        finally:
            os.chdir(cwd)
            subprocess.run(["/bin/rm", "-rf", "--", os.path.join(w, b"t")])

    def inputs(self, env, w, case):
        """Many files to read in inline mode, with few files that may be open."""
        n, salt = case["n"], case["salt"]
        want = []
        # some with a long line, empty, or without a newline at the end
        end = [b"\n", b"", b"\n", b"\n"][salt // 4 % 4]
        long = [b"", b"", b"w" * 2000][salt // 16 % 3]
        for i in range(n):
            with open(os.path.join(w, b"i%d" % i), "wb") as f:
                f.write((b"l %d\n" % i * (i % 3))[:-1] + end * (i % 3 > 0) + long * (i % 5 == 0))
            want.append((b"l_%d\n" % i * (i % 3))[:-1] + end * (i % 3 > 0) + long * (i % 5 == 0))
        program, opts = [("inline-detox", []), ("detox", ["--inline"])][salt // 2 % 2]
        rc, out, err = env.run(argv(env, opts, ["i%d" % i for i in range(n)], program), w, files=[None, 64][salt % 2])
        ok(rc, out, err)
        if err or out != b"".join(want):
            raise Violation("%d inputs: %d bytes of output instead of %d, %r" % (n, len(out), len(b"".join(want)), err[:300]))

    def stream(self, env, w, case):
        """Many lines, with little memory."""
        n, salt = case["n"], case["salt"]
        one = [b"a b %d x" % salt, b"w" * 90 + b" " + b"(v)" * 4, b"..", b"caf\xc3\xa9 &"][salt % 4]
        want = b".." if one == b".." else model.clean(model.SHIPPED["default"], one)
        rc, out, err = env.run([os.fsencode(env.bin("inline-detox"))], w, stdin=(one + b"\n") * n, timeout=120, memory=16 << 20)
        ok(rc, out, err)
        if err or out != (want + b"\n") * n:
            raise Violation("%d lines: %d bytes of output instead of %d, %r" % (n, len(out), len(want) * n + n, err[:300]))

    def ignored(self, env, w, case):
        n, salt = case["n"], case["salt"]
        d = os.path.join(w, b"t")
        os.mkdir(d)
        listed = ["i %d" % i for i in range(n)]
        items = [{"seq": "s", "filters": model.SHIPPED["default"]}]
        cut = salt % (n + 1)
        for part in (listed[:cut], listed[cut:]):
            if part:
                items.insert(salt % (len(items) + 1), {"ignore": part})
        rc_file = conf.write_config(w, "rc", items, salt)
        want = []
        for i in list(range(n + 20)) if n < 400 else sorted({k for j in range(17) for k in ((1 << j) - 1, 1 << j) if k < n} | set(range(n - 20, n + 20))):
            name = "i %d" % i
            with open(os.path.join(d, B(name)), "wb"):
                pass
            want.append(B(name) if i < n else B(name.replace(" ", "_")))
        rc, out, err = env.run(argv(env, ["-f", S(rc_file), "-s", "s"], ["t"]), w)
        ok(rc, out, err)
        self.expect(d, want)

    def sequences(self, env, w, case):
        n, salt = case["n"], case["salt"]
        items = [{"seq": "s%d" % i, "filters": [{"f": "max_length", "length": i % 890 + 1}]} for i in range(n)]
        rc_file = conf.write_config(w, "rc", items, salt)
        line = b"x" * 900
        for k in {0, n - 1, salt % n}:
            rc, out, err = env.run([os.fsencode(env.bin("inline-detox")), b"-f", rc_file, b"-s", b"s%d" % k], w, stdin=line + b"\n")
            ok(rc, out, err)
            if out != b"x" * (k % 890 + 1) + b"\n":
                raise Violation("sequence %d of %d gives %d bytes" % (k, n, len(out) - 1))
        rc, out, err = env.run([os.fsencode(env.bin("detox")), b"-f", rc_file, b"-L"], w)
        ok(rc, out, err)
        listed = [x.strip().split()[0] for x in lines(out)[1:] if x.strip()]
        if listed != [b"s%d" % i for i in range(n)]:
            raise Violation("-L lists %d of %d sequences" % (len(listed), n))

    def filters(self, env, w, case):
        """A chain in which each filter's table moves one character on."""
        n, salt = case["n"], case["salt"]
        codes = [0x4E00 + i for i in range(n + 1)]
        fl = [{"f": "utf_8", "table": {"rows": [[codes[i], chr(codes[i + 1]).encode().decode("latin-1")]], "default": None, "form": salt + i}} for i in range(n)]
        rc_file = conf.write_config(w, "rc", [{"seq": "s", "filters": fl}], salt)
        opts = ["-f", S(rc_file), "-s", "s"]
        end = chr(codes[n]).encode()
        given = [chr(codes[i]).encode() + b"z" for i in {0, n // 2, n}]
        stream.inline(env, w, opts, given, [end + b"z"] * len(given))

    def tables(self, env, w, case):
        """Many tables, some of them odd, with few files that may be open."""
        n, salt = case["n"], case["salt"]
        texts = ["", "# nothing\n", "start\nend\n", "start\n0x61 b\n", "start xx\n0x62 c\nend\n", 'default ""\nstart\n', "start\n0x62 \"a\"\nend", "start\n0x63 c\n0x63 c\nend\n"]
        fl, one = [], salt // 2
        for i in range(n):
            text = texts[(one if salt % 2 else i * 5 + salt) % len(texts)]
            with open(os.path.join(w, b"t%d" % i), "w") as f:
                f.write(text)
            fl.append("safe { filename t%d; };" % i)
        with open(os.path.join(w, b"rc"), "w") as f:
            f.write("sequence s { %s lower; };\nsequence t { lower; };\n" % "\n".join(fl))
        rows = []
        for i in range(n):
            text = texts[(one if salt % 2 else i * 5 + salt) % len(texts)]
            rows.append({"b": "a"} if text.startswith("start\n0x62") else {"a": "b"} if text.startswith("start\n0x61") else {})
        def clean(x):
            for r in rows:
                x = r.get(x, x)
            return x.lower()
        given = ["a", "b", "c", "A"]
        rc, out, err = env.run([env.bin("inline-detox"), "-f", "rc", "-s", "s"], w, stdin=b"".join(B(g) + b"\n" for g in given), files=[40, None, 40][salt % 3])
        ok(rc, out, err)
        if err or out != b"".join(B(clean(g)) + b"\n" for g in given):
            raise Violation("%d tables: %r instead of %r, %r" % (n, out, [clean(g) for g in given], err[:300]))

    def rows(self, env, w, case):
        n, salt = case["n"], case["salt"]
        step = 1 + salt % 17
        codes = [0xA0 + i * step for i in range(n) if 0xA0 + i * step <= 0x10FFFF and not 0xD800 <= 0xA0 + i * step < 0xE000]
        text = "start\n" + "".join("%#x r%x\n" % (c, c) for c in codes) + "end\n"
        with open(os.path.join(w, b"big.tbl"), "w") as f:
            f.write(text)
        with open(os.path.join(w, b"rc"), "w") as f:
            f.write('sequence s { utf_8 { filename "%s/big.tbl"; }; };\n' % S(w))
        picks = codes if n <= 2000 else codes[:: max(1, len(codes) // 1500)] + codes[-5:]
        given = [chr(c).encode() for c in picks]
        stream.inline(env, w, ["-f", S(w) + "/rc", "-s", "s"], given, [b"r%x" % c for c in picks])
