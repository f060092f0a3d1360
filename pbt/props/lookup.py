"""Where the tables of a sequence come from."""

import os

from hypothesis import strategies as st

from .. import conf, gen, layers, model, stream
from ..engine import Outcome, Prop, Violation
from ..names import B, S
from .filters import fits, key_text

KINDS = ["safe", "utf_8", "iso8859_1"]
OWN = {"safe": "safe", "utf_8": "unicode", "iso8859_1": "iso8859_1"}
OTHER = ["cp1252", "utf_8", "Safe", "SAFE", "default", "iso8859-1", "Unicode"]
# how a file of its own is named in the config, and where it then is
NAMED = ["t%d.tbl", "./t%d", "sub dir/t%d.tbl", "safe.tbl", "unicode.tbl", "iso8859_1.tbl", "/t%d.tbl", "sub dir/../t%d.tbl", "cp1252", "safe", "builtin", "~/t%d.tbl", "$HOME/t%d.tbl", "t%d.tbl.tbl",
         "in %d/table", "in %d/table", "in %d/safe.tbl", "/in %d/table"]
LURES = ["conf dir", "home", "home/.local/share/detox", "data/detox", "data", "pbtetc", "pbtetc/detox", "detox", ".detox", "pbtdata", "pbt root/etc", "pbt root/etc/detox", "pbt root/usr/share", "pbt root/usr/local/etc", "pbt root/usr/local/etc/detox",
         "pbt root/pbtdata/detox", "pbt root/opt/share/detox", "share/detox", "usr/share/detox", "table", "."]
LURE = b"default LURE\nstart\n0x41 LURE\n0x20 LURE\n0xE9 LURE\nend\n"


def keys(kind):
    return {"safe": conf.SAFE_KEYS, "iso8859_1": conf.HIGH_KEYS}.get(kind) or conf.uni_keys()


class C32(Prop):
    id = "C32"
    shims = ["fs"]
    quick, thorough = 330, 9000
    rule = ("Sequences of table filters with a builtin table, a file of their own or neither; tables in every subset of the places a table is looked for, and tables of the same names where none is "
            "looked for; the results have to be those of the tables that the manual names. Non-trivial: the tables matter, the result for some name would be different with the builtin ones only.")

    def strategy(self, env):
        def filt(kind):
            own = conf.table(keys(kind), 6)
            return gen.one_of(
                st.just({"f": kind}), st.just({"f": kind}),
                st.sampled_from(["safe", "unicode", "iso8859_1", "cp1252"]).map(lambda b: {"f": kind, "builtin": b}),
                st.tuples(own, st.sampled_from(NAMED)).map(lambda t: {"f": kind, "file": t[0], "named": t[1]}))

        filters = st.lists(st.sampled_from(KINDS * 3 + ["lower", "wipeup"]).flatmap(lambda k: filt(k) if k in KINDS else st.just({"f": k})), min_size=1, max_size=4)

        @st.composite
        def case(draw):
            found = []
            for place in layers.SHARED:
                for kind in KINDS:
                    if draw(st.integers(0, 2)) == 0:
                        found.append([place, OWN[kind], draw(conf.table(keys(kind), 5)), draw(st.sampled_from(["file", "file", "link", "dangling"]))])
                if draw(st.integers(0, 3)) == 0:
                    found.append([place, draw(st.sampled_from(OTHER)), draw(conf.table(conf.SAFE_KEYS, 3)), "file"])
            fl = draw(filters)
            text = [t for f in fl if "file" in f for t in key_text({"f": f["f"], "table": f["file"]})]
            text += [t for p, n, spec, _ in found for t in key_text({"f": "utf_8" if n == "unicode" else "safe", "table": spec})]
            alpha = text * 2 + ["a", "A", " ", "&", "(", "\xe9", "\x80", "\xc2\xa0", "\xe2\x82\xac", "_", "z"]
            return {"filters": fl, "found": found, "lures": draw(st.lists(st.sampled_from(LURES), max_size=6, unique=True)), "rc": draw(st.sampled_from(["rc", "conf dir/rc", "abs"])),
                    "missing": draw(st.integers(0, 7)) == 0, "lines": draw(stream.lines_of(stream.words(alpha, 8), 3, 8)), "files": draw(st.integers(0, 3)) == 0, "form": draw(st.integers(0, 1 << 30))}

        return case()

    def fixed(self, env):
        """Every subset of the places, for every filter."""
        out = []
        tab = lambda key, n: {"rows": [[key, "place%d" % n]], "default": None, "form": n}  # noqa: E731
        for a in KINDS:  # files of the same name in different folders
            for b in KINDS:
                for named in ("in %d/table", "in %d/safe.tbl", "/in %d/table"):
                    out.append({"filters": [{"f": a, "file": tab(0xE9, 1), "named": named}, {"f": b, "file": tab(0x80 if b != "utf_8" else 0x20AC, 2), "named": named}, {"f": a, "file": tab(0xC3 if a != "utf_8" else 0x80, 3), "named": named}],
                                "found": [], "lures": [], "rc": "rc", "missing": False, "lines": ["a\xe9\xe2\x82\xac b", "\x80&", "\xc3\xa9\xe9\x80", "\xc2\x80"], "files": False, "form": 1})
        for kind in KINDS:
            key = 0x20AC if kind == "utf_8" else 0xE9
            for mask in range(8):
                for how in ("file", "dangling"):
                    found = [[p, OWN[kind], tab(key, i), how if i == (mask * 5) % 3 else "file"] for i, p in enumerate(layers.SHARED) if mask >> i & 1]
                    for other in ([], [{"f": kind, "file": tab(key, 7), "named": "safe.tbl"}], [{"f": kind, "builtin": OWN[kind]}], [{"f": k} for k in KINDS]):
                        out.append({"filters": other + [{"f": kind}], "found": found, "lures": LURES, "rc": ["rc", "conf dir/rc", "abs"][mask % 3], "missing": False,
                                    "lines": ["a\xe9\xe2\x82\xac b", "\x80&"], "files": mask % 2 == 0, "form": mask})
            for named in NAMED:
                out += [{"filters": [{"f": kind}, {"f": kind, "file": tab(key, 7), "named": named}], "found": [[p, OWN[kind], tab(key, i), "file"] for i, p in enumerate(layers.SHARED[mask:])], "lures": LURES, "rc": ["rc", "conf dir/rc", "abs"][mask % 3],
                         "missing": missing, "lines": ["a\xe9\xe2\x82\xac b", "\x80&"], "files": False, "form": mask} for missing in (False, True) for mask in range(4)]
        return out

    def run(self, env, case):
        w = env.fresh()
        root = os.path.join(w, b"pbt root")

        def put(path, data):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if not os.path.lexists(path):
                with open(path, "wb") as f:
                    f.write(data)

        def folder(place):
            return (root + B(place) if place.startswith("/") else os.path.join(w, B(place))) + b"/detox"

        # tables that are found
        search = {}
        for place, name, spec, how in case["found"]:
            path = os.path.join(folder(place), B(name) + b".tbl")
            text = conf.table_text(spec)
            if how == "file":
                put(path, text)
            else:
                real = os.path.join(w, b"elsewhere", B("%s %s" % (place.replace("/", "_"), name)))
                if how == "link":
                    put(real, text)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                os.symlink(real, path)
            rank = layers.SHARED.index(place)
            if how != "dangling" and rank < search.get(name, (9, 0))[0]:
                search[name] = (rank, spec)
        # the filters, and their files
        written, filters, absent = [], [], []
        for i, f in enumerate(case["filters"]):
            if "file" in f:
                name = f["named"].replace("%d", str(i))
                if name.startswith("/"):
                    name = S(w) + name
                missing = case["missing"]
                os.makedirs(os.path.join(w, b"sub dir"), exist_ok=True)
                path = os.path.normpath(os.path.join(w, B(name)))
                spec = f["file"]
                if missing:
                    absent.append(name)
                elif os.path.lexists(path):
                    spec = next(g["spec"] for g in written if g.get("path") == path)  # named twice
                else:
                    put(path, conf.table_text(spec))
                written.append({"f": f["f"], "table": name, "path": path, "spec": spec})
                filters.append({"f": f["f"], "table": conf.table_model(spec)})
            elif f["f"] in KINDS and "builtin" not in f:
                spec = search.get(OWN[f["f"]])
                written.append(f)
                filters.append(f if spec is None else {"f": f["f"], "table": conf.table_model(spec[1])})
            else:
                written.append(f)
                filters.append(f)
        own = [g["path"] for g in written if "path" in g]
        for place in case["lures"]:
            at = os.path.normpath(os.path.join(w, B(place)))
            for name in [b"safe.tbl", b"unicode.tbl", b"iso8859_1.tbl", b"safe", b"unicode", b"cp1252.tbl"] + [B(g["table"]) for g in written if "path" in g and "/" not in g["table"]] + [b"t%d.tbl" % i for i in range(4)]:
                path = os.path.join(at, name)
                if path not in own and not os.path.lexists(path):
                    put(path, LURE)
        if case["missing"]:
            for g in written:  # what has the name in places where it does not count
                if "path" in g:
                    for place in layers.SHARED:
                        if "../" not in g["table"] and not g["table"].startswith("/"):
                            put(os.path.join(folder(place), B(g["table"])), LURE)
            absent = [n for n, g in zip(absent, [g for g in written if "path" in g]) if not os.path.lexists(g["path"])]
        rc = {"abs": S(w) + "/conf dir/my rc"}.get(case["rc"], case["rc"])
        put(os.path.join(w, B(rc)), conf.config_text([{"seq": "s", "filters": [{k: v for k, v in g.items() if k not in ("path", "spec")} for g in written]}], case["form"], lambda name: name))
        opts = ["-f", rc, "-s", "s"]
        envv = {"LD_PRELOAD": env.shims["fs"], "PBT_ROOT": "pbt root", "HOME": S(w) + "/home", "XDG_DATA_HOME": S(w) + "/data", "XDG_DATA_DIRS": S(w) + "/data", "DATADIR": S(w) + "/data"}
        if case["missing"] and any("path" in g for g in written):
            if not absent:
                return Outcome(False, ["a name that is there after all"])
            done = env.run([os.fsencode(env.bin("inline-detox"))] + [B(o) for o in opts], w, stdin=b"a b\n", env=envv)
            if done[0] == 0 or done[1] or not any(B(n) in done[2] for n in absent):
                raise Violation("there is no table %r, but status %d, output %r, errors %r" % (absent, done[0], done[1][:100], done[2][:200]))
            return Outcome(True, ["missing"])
        lines = [B(t) for t in case["lines"] if "\n" not in t and fits(filters, B(t))]
        want = [model.clean(filters, t) for t in lines]
        stream.inline(env, w, opts, lines, want, envv)
        if case["files"]:
            stream.files(env, w, opts, lines, want, envv)
        plain = [{"f": g["f"]} if "path" in g else g for g in written]
        matters = want != [model.clean(plain, t) for t in lines]
        hows = {"own file" if "path" in g else "builtin" if "builtin" in g else "looked for" for g in written if g["f"] in KINDS}
        return Outcome(matters, sorted(hows) + ["found in %s" % layers.SHARED[r] for r, _ in search.values()])
