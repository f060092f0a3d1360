"""Trees on disk: building them from a case, looking at them, judging renames."""

import os
import stat

from . import engine, model
from .engine import Violation
from .names import B, S

# A node is [name, kind, payload, mode]: kind f (payload: n, its content token),
# d (payload: children), l (payload: target), p (fifo), h (payload: k, a hard
# link to the k-th entry made so far that is no directory, modulo their number),
# s (socket).


def content(token):
    return b"" if token % 9 == 5 else b"token %d\n\0" % token * (700 if token % 11 == 7 else 1)


TIMES = [10**18, 4 * 10**18, 0, 10**18, -(10**17)]  # in 2001, 2096, 1970 and 1966


def materialize(nodes, root, files=None):
    """Creates the nodes below root (bytes), some of them owned by another user."""
    if files is None:
        files = []
        materialize(nodes, root, files)
        if engine.give:
            for where, (name, kind, payload, mode) in walk(nodes):
                if kind == "f" and payload % 7 == 4 or kind == "d" and mode == 0o777 or kind == "l" and len(payload) % 3 == 2:
                    engine.give(os.path.join(root, *map(B, where)))
        return
    for name, kind, payload, mode in nodes:
        path = os.path.join(root, B(name))
        if kind == "f":
            with open(path, "wb") as f:
                f.write(content(payload))
            os.chmod(path, mode)
            os.utime(path, ns=(TIMES[payload % len(TIMES)] + payload,) * 2)
            files.append(path)
        elif kind == "d":
            os.mkdir(path)
            materialize(payload, path, files)
            os.chmod(path, mode)
            os.utime(path, ns=(TIMES[len(payload) % len(TIMES)],) * 2)
        elif kind == "l":
            os.symlink(B(payload), path)
            files.append(path)
        elif kind == "p":
            os.mkfifo(path, mode)
            files.append(path)
        elif kind == "s":
            os.mknod(path, stat.S_IFSOCK | mode)
            files.append(path)
        elif kind == "h":
            if files:
                os.link(files[payload % len(files)], path, follow_symlinks=False)
            else:
                with open(path, "wb") as f:
                    f.write(content(10**6 + payload))
                files.append(path)


class Entry:
    __slots__ = ("parent", "name", "ino", "kind", "mode", "nlink", "data", "mtime", "path")

    def ident(self):
        return (self.ino, self.kind, self.mode, self.nlink if self.kind != "d" else 0, self.data,
                self.mtime if self.kind != "d" else 0)


def kind_of(mode):
    for k, f in (("f", stat.S_ISREG), ("d", stat.S_ISDIR), ("l", stat.S_ISLNK), ("p", stat.S_ISFIFO), ("s", stat.S_ISSOCK)):
        if f(mode):
            return k
    return "?"


def readable(path, s):
    return bool(s.st_mode & 0o400) and os.access(path, os.R_OK)


def snapshot(root):
    """Every entry below root, in no particular order."""
    out = []
    top = os.lstat(root)
    stack = [(root, top.st_ino)]
    while stack:
        d, ino = stack.pop()
        for n in os.listdir(d):
            p = os.path.join(d, n)
            s = os.lstat(p)
            e = Entry()
            e.parent, e.name, e.ino, e.path = ino, n, s.st_ino, p
            e.kind, e.mode, e.nlink, e.mtime = kind_of(s.st_mode), s.st_mode, s.st_nlink, s.st_mtime_ns
            e.data = None
            if e.kind == "f" and not readable(p, s):
                e.data = b"unreadable, %d bytes" % s.st_size
            elif e.kind == "f":
                with open(p, "rb") as f:
                    e.data = f.read()
            elif e.kind == "l":
                e.data = os.readlink(p)
            out.append(e)
            if e.kind == "d":
                stack.append((p, s.st_ino))
    return out


def find(folder, ino):
    """The path an entry of folder has now."""
    for n in os.listdir(folder):
        p = os.path.join(folder, n)
        if os.lstat(p).st_ino == ino:
            return p
    raise Violation("inode of %r's entry is gone" % folder)


def listing(root):
    """{relative path: identity}, for exact comparisons."""
    return {os.path.relpath(e.path, root): e.ident() for e in snapshot(root)}


def same_population(before, after):
    """Every entry survived with its identity (names and places aside)."""
    b = sorted((e.ident() for e in before), key=repr)
    a = sorted((e.ident() for e in after), key=repr)
    if a != b:
        lost = [x for x in b if x not in a]
        new = [x for x in a if x not in b]
        raise Violation("entries were lost or changed.\n before, missing now: %r\n now, not there before: %r\n names before: %r\n names after: %r" % (
            lost[:4], new[:4], sorted(e.path for e in before)[:20], sorted(e.path for e in after)[:20]))


def pairs(before, after, clean=None):
    """[(entry before, entry after)], matched by inode and directory.  Several
    links to one file within a directory are told apart by their names: with
    clean, each is given its cleaned or else its old name if that can be."""
    rest = {}
    for e in after:
        rest.setdefault((e.ino, e.parent), []).append(e)
    groups = {}
    for e in before:
        groups.setdefault((e.ino, e.parent), []).append(e)
    out = []
    for key, old in groups.items():
        new = rest.pop(key, [])
        if len(new) < len(old):
            raise Violation("%r is no longer in its directory" % [e.path for e in old])
        if len(new) > len(old):
            raise Violation("%r: entries appeared in its directory: %r" % (old[0].path, [e.path for e in new]))
        out += match(old, new, clean) if len(old) > 1 else [(old[0], new[0])]
    for c in rest.values():
        for e in c:
            raise Violation("%r appeared in a directory it was not in" % e.path)
    return out


def match(old, new, clean):
    """A matching of links with as many explained names as there can be."""
    old = sorted(old, key=lambda e: e.name)
    new = sorted(new, key=lambda e: e.name)
    wants = [[clean(e.name)] if clean else [] for e in old]
    for i, e in enumerate(old):
        wants[i].append(e.name)
    owner = {}

    def place(i, seen):
        for w in wants[i]:
            for j, x in enumerate(new):
                if x.name == w and j not in seen:
                    seen.add(j)
                    if j not in owner or place(owner[j], seen):
                        owner[j] = i
                        return True
        return False

    left = [i for i in range(len(old)) if not place(i, set())]
    free = [j for j in range(len(new)) if j not in owner]
    owner.update(zip(free, left))
    return [(old[i], new[j]) for j, i in owner.items()]


def judge(before, after, processed, clean):
    """Checks each entry's final name, whatever the order of processing.

    processed(entry) says whether the run had to deal with it, clean(name)
    gives its cleaned name.  Returns the number (renamed, blocked)."""
    matched = pairs(before, after, clean)
    by_dir = {}
    for b, a in matched:
        by_dir.setdefault(b.parent, []).append((b, a))
    renamed = blocked = 0
    for group in by_dir.values():
        for b, a in group:
            if not processed(b):
                if a.name != b.name:
                    raise Violation("%r was renamed to %r although it was out of scope" % (b.path, a.name))
                continue
            want = clean(b.name)
            if want == b.name or not model.valid_name(want):
                if a.name != b.name:
                    raise Violation("%r was renamed to %r, it had to stay" % (b.path, a.name))
                continue
            if a.name == b.name:
                others = [x for x, y in group if x is not b and (x.name == want or y.name == want)]
                if not others:
                    raise Violation("%r was not renamed to %r, which was free" % (b.path, want))
                blocked += 1
            elif a.name == want:
                renamed += 1
            else:
                raise Violation("%r was renamed to %r instead of %r" % (b.path, a.name, want))
    return renamed, blocked


# ----------------------------------------------------------- strategies for trees


DIR_MODES = [0o755, 0o755, 0o755, 0o700, 0o777, 0o1777, 0o2755, 0o1700]


def nodes(name_lists, max_entries=6, depth=2, kinds="ffffdlphs", modes=(0o644, 0o600, 0o755, 0o644, 0, 0o4711, 0o2755, 0o1644), targets=None):
    """Directories whose names are drawn from families, so that they compete.

    The target = stands for the link itself, < for an entry next to it."""
    from hypothesis import strategies as st

    if targets is None:
        targets = st.sampled_from(["nowhere", ".", "..", "a b", "../a b", "/nonexistent/x y", "=", "<", "<"])

    def level(d):
        @st.composite
        def build(draw):
            pools = draw(st.lists(name_lists, min_size=1, max_size=3))
            pool = [n for p in pools for n in p]
            count = draw(st.integers(0 if d < depth else 1, max_entries))
            out, used = [], set()
            for i in range(count):
                name = pool[draw(st.integers(0, len(pool) - 1))]
                if name in used or len(B(name)) > 255:
                    continue
                used.add(name)
                kind = draw(st.sampled_from(kinds))
                mode = draw(st.sampled_from(modes))
                if kind == "d":
                    if d <= 0:
                        kind = "f"
                    else:
                        out.append([name, "d", draw(level(d - 1)), draw(st.sampled_from(DIR_MODES))])
                        continue
                if kind == "f":
                    out.append([name, "f", draw(st.integers(0, 999)), mode])
                elif kind == "l":
                    to = draw(targets)
                    if to == "=" or to == "<" and not out:
                        to = name
                    elif to == "<":
                        to = draw(st.sampled_from(out))[0]
                    out.append([name, "l", to, 0])
                elif kind in "ps":
                    out.append([name, kind, 0, mode])
                else:
                    out.append([name, "h", draw(st.sampled_from([-1] * 8 + list(range(13)))), mode])  # often to the one before
            return out

        return build()

    return level(depth)


def count_nodes(ns):
    return sum(1 + (count_nodes(n[2]) if n[1] == "d" else 0) for n in ns)


def walk(ns, prefix=()):
    for n in ns:
        yield prefix + (n[0],), n
        if n[1] == "d":
            yield from walk(n[2], prefix + (n[0],))


def tidy(ns, change):
    """The same tree with its names put through change, without duplicates."""
    out, used = [], set()
    for name, kind, payload, mode in ns:
        name = change(name)
        if not name or name in (".", "..") or name in used or len(B(name)) > 255:
            continue
        used.add(name)
        out.append([name, kind, tidy(payload, change) if kind == "d" else payload, mode])
    return out


def no_newlines(name):
    return name.replace("\n", " ").replace(" -> ", " - ")


def separate(ns, clean):
    """The tree without entries that compete for a name with a sibling."""
    out, used = [], set()
    for name, kind, payload, mode in ns:
        want = S(clean(B(name)))
        if name in used or want in used:
            continue
        used.update((name, want))
        out.append([name, kind, separate(payload, clean) if kind == "d" else payload, mode])
    return out


def full(root):
    """{path: everything lstat tells, except the access time}"""
    out = {}
    stack = [root]
    while stack:
        d = stack.pop()
        for n in os.listdir(d):
            p = os.path.join(d, n)
            s = os.lstat(p)
            data = None
            if stat.S_ISREG(s.st_mode) and readable(p, s):
                with open(p, "rb") as f:
                    data = f.read()
            elif stat.S_ISLNK(s.st_mode):
                data = os.readlink(p)
            out[p] = (s.st_ino, s.st_mode, s.st_uid, s.st_gid, s.st_size, s.st_nlink, s.st_mtime_ns, s.st_ctime_ns, data)
            if stat.S_ISDIR(s.st_mode):
                stack.append(p)
    return out
