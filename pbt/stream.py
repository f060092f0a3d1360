"""Shared pieces of the checks that look at names as strings."""

import os
import shutil

from hypothesis import strategies as st

from . import gen

from . import build, conf, model
from .engine import Violation
from .names import B, S

MAX_LINE = 1000  # one read of inline mode; longer lines are C16's concern


def prepare_shipped(env):
    """Copies of /repo's tables and config, readable by the workers."""
    d = os.path.join(env.scratch, "shipped")
    if os.path.isdir(d):
        return d
    os.mkdir(d)
    for sub in ("table", "table/legacy", "etc"):
        src = os.path.join(build.REPO, sub)
        for n in sorted(os.listdir(src)) if os.path.isdir(src) else ():
            if os.path.isfile(os.path.join(src, n)):
                shutil.copyfile(os.path.join(src, n), os.path.join(d, ("legacy_" if sub.endswith("legacy") else "") + n))
    return d


ROUTES = ["builtin", "builtin", "etc", "files", "search"]
TABLE_FILE = {"safe": "safe.tbl", "unicode": "unicode.tbl", "iso8859_1": "iso8859_1.tbl", "cp1252": "cp1252.tbl"}


def route_opts(env, w, name, route):
    """Options that select a shipped sequence, by one of several routes."""
    shipped = os.path.join(env.scratch, "shipped")
    if route == "builtin":
        return ["-s", name]
    if route == "etc":
        return ["-f", os.path.join(shipped, "detoxrc"), "-s", name]
    text = "sequence \"%s\" {\n" % name
    if route == "search":
        os.makedirs(os.path.join(w, b"pbtdata", b"detox"))
        for t in TABLE_FILE.values():
            os.symlink(B(os.path.join(shipped, t)), os.path.join(w, b"pbtdata", b"detox", B(t)))
    for f in model.SHIPPED[name]:
        kind = f["f"]
        if kind in model.DEFAULT_BUILTIN:
            b = f.get("builtin") or model.DEFAULT_BUILTIN[kind]
            if route == "search" and b == model.DEFAULT_BUILTIN[kind]:
                text += kind + ";\n"
            else:
                text += '%s { filename "%s"; };\n' % (kind, os.path.join(shipped, TABLE_FILE[b]))
        elif kind == "wipeup":
            text += "wipeup { remove_trailing; };\n"
        else:
            text += kind + ";\n"
    text += "};\n"
    with open(os.path.join(w, b"rc"), "w") as f:
        f.write(text)
    return ["-f", S(os.path.join(w, b"rc")), "-s", name]


def custom_opts(w, filters, form):
    return ["-f", S(conf.write_config(w, "rc", [{"seq": "s", "filters": filters}], form)), "-s", "s"]


def inline(env, w, opts, lines, want, envv=None, variant="plain", program="inline-detox"):
    """Cleans lines in inline mode and compares with what was expected."""
    data = b"".join(x + b"\n" for x in lines)
    argv = [os.fsencode(env.bin(program, variant))] + [B(o) for o in opts]
    if program == "detox":
        argv.append(b"--inline")
    rc, out, err = env.run(argv, w, stdin=data, env=envv)
    if rc != 0:
        raise Violation("status %d: %s" % (rc, err[:500].decode("latin-1")))
    if out == b"".join(x + b"\n" for x in want):
        return err
    rest = out
    for given, expect in zip(lines, want):
        if not rest.startswith(expect + b"\n"):
            got = rest[: len(expect) + 80].split(b"\n")[0]
            raise Violation("%r became %r instead of %r" % (given, got, expect))
        rest = rest[len(expect) + 1:]
    raise Violation("extra output %r" % rest[:200])


def files(env, w, opts, names, want, envv=None, kinds="f"):
    """Cleans names as entries of directories of their own and compares.
    Names that a directory entry cannot have are left out."""
    jobs = []
    base = os.path.join(w, b"x")
    os.mkdir(base)
    for i, (n, e) in enumerate(zip(names, want)):
        if not model.valid_name(n) or b"\n" in n and False:
            continue
        d = os.path.join(base, b"%d" % i)
        os.mkdir(d)
        p = os.path.join(d, n)
        if kinds[i % len(kinds)] == "d":
            os.mkdir(p)
        else:
            with open(p, "wb"):
                pass
        jobs.append((d, n, e))
    if not jobs:
        return 0
    argv = [os.fsencode(env.bin())] + [B(o) for o in opts] + [b"--"]
    argv += [os.path.join(d, n) for d, n, _ in jobs]
    rc, out, err = env.run(argv, w, env=envv)
    if rc != 0:
        raise Violation("status %d: %s" % (rc, err[:500].decode("latin-1")))
    for d, n, e in jobs:
        now = os.listdir(d)
        if len(now) != 1:
            raise Violation("%r: the directory now holds %r" % (n, now))
        if model.valid_name(e):
            if now[0] != e:
                raise Violation("%r became %r instead of %r" % (n, now[0], e))
        elif now[0] != n:
            raise Violation("%r became %r, although %r cannot be a name" % (n, now[0], e))
    return len(jobs)


def lines_of(name, min_size=8, max_size=40):
    return st.lists(name, min_size=min_size, max_size=max_size)


def clip(t):
    """A line: no NUL, no newline, bounded."""
    return t.replace("\0", "").replace("\n", "")[:MAX_LINE]


def words(alphabet, max_size=24, min_size=0):
    """Strings over tokens that matter for a filter, plus any bytes."""
    tok = st.sampled_from(alphabet)
    raw = st.binary(min_size=1, max_size=4).map(lambda b: b.decode("latin-1"))
    piece = gen.one_of(tok, tok, tok, tok, raw)
    short = st.lists(piece, min_size=min_size, max_size=max_size).map("".join)
    rep = st.tuples(short, tok, st.integers(1, 300), short).map(lambda t: t[0] + t[1] * t[2] + t[3])
    return gen.one_of(short, short, short, short, rep).map(clip)


def dense(alphabet, max_size=12):
    """Strings made of the given tokens only."""
    return st.lists(st.sampled_from(alphabet), min_size=1, max_size=max_size).map("".join).map(clip)


def all_strings(alphabet, length):
    out = [""]
    level = [""]
    for _ in range(length):
        level = [a + c for a in level for c in alphabet]
        out += level
    return out


def chunks(seq, n):
    return [seq[i: i + n] for i in range(0, len(seq), n)]
