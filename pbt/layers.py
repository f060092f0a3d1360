"""Configuration as a whole: files in several places, what they amount to, and
how the program tells about it."""

import os
import re

from hypothesis import strategies as st

from . import gen

from . import conf, model
from .engine import Violation
from .names import B, S

PLACES = ["etc", "home", "xdg"]
SYSTEM = ["etc", "/etc", "/usr/local/etc"]  # where the system file may be; the first one counts
SHARED = ["pbtdata", "/usr/share", "/usr/local/share"]  # the same for tables
BUILTIN_SOURCE = "built-in config file"
HUGE = 0x7FFFFFFF
KIND_LABEL = {"max_length": "max length"}

SEQ_NAMES = ["default", "default", "lower", "a", "a", "b", "b", "seq_1", "My Seq", "default2", "safe", "utf_8", "DEFAULT", "x-y", "", "{", "; }", "#x", "caf\xc3\xa9",
             "iso8859_1-legacy", "sequencer", "safely", "builtin", "uncgi_", "lower_1", "it's", "long_" * 60, "1st", "\xe9", "$HOME", "%s%n", "back\\slash", "-s", "(*)"]
DIRTY = ["a b", "{arch}", "x (1)", "A B.txt", "it's", "_x", "tmp dir", "b&c", "B C", "%41 %2e", "caf\xe9", "na\xc3\xafve x", "clean", "Upper", "a  b", "x_(1)", "-dash", "#hash", "d__d"]
IGNORES = DIRTY + ["a b ", "a", "A b", "{arch", "x (1).txt", "tmp", "*", "? ?", "", "x", "up/down", "Upper/", "./a b", "CVS", "name_1", "filename", "IGNORE", "no such entry"]


def tables_of(items):
    for it in items:
        for f in it.get("filters", []):
            if isinstance(f.get("table"), dict):
                yield f


def items_strategy(max_items=5, seqs=None, min_items=0):
    seq = st.fixed_dictionaries({"seq": st.sampled_from(seqs or SEQ_NAMES), "filters": conf.filter_list(4)})
    ign = st.fixed_dictionaries({"ignore": st.lists(st.sampled_from(IGNORES), min_size=1, max_size=4)})
    return st.lists(gen.one_of(seq, seq, seq, ign), min_size=min_items, max_size=max_items)


class Placed:
    """Files of a case on disk: a folder w to run in, options, environment."""

    def __init__(self, w, case, shim=None):
        self.w = w
        self.opts, self.env = [], {}
        self.fixed = os.path.join(w, b"pbt root")  # stands for / where a path is a fixed one
        if shim and (any(x.startswith("/") for x in case["layers"]) or any(x.startswith("/") for x in case.get("search") or {})):
            self.env.update({"LD_PRELOAD": shim, "PBT_ROOT": "pbt root"})
        self.layers = []  # (path as printed, items with model tables)
        self.files = {}  # place -> path
        form = case.get("form", 0)
        dice = conf.Dice(form + 77)
        homes = [b"home", b"my home", b"ho me/\xc3\xa9", b"d" * 200 + b"/" + b"e" * 100]
        self.home = os.path.join(w, homes[dice(4)])
        self.xdg = os.path.join(w, [b"xdg", b"home/.config", b"x d g", b"x" * 150 + b"/" + b"y" * 150][dice(4)])
        # True: set, False: not set, "": set but empty (there is no such file in the root directory)
        for key, var, path in (("home", "HOME", self.home), ("xdg", "XDG_CONFIG_HOME", self.xdg)):
            value = case.get(key, True)
            self.env[var] = S(path) if value is True else "" if value == "" else None
        where = {"etc": (b"pbtetc/detoxrc", "pbtetc/detoxrc"),
                 "home": (os.path.join(self.home, b".detoxrc"), S(self.home) + "/.detoxrc"),
                 "xdg": (os.path.join(self.xdg, b"detox", b"detoxrc"), S(self.xdg) + "/detox/detoxrc")}
        for place in SYSTEM[1:]:
            where[place] = (self.fixed + B(place) + b"/detoxrc", place + "/detoxrc")
        system = [x for x in SYSTEM if case["layers"].get(x) is not None]
        for place in SYSTEM + PLACES[1:]:
            items = case["layers"].get(place)
            if items is None:
                continue
            path, printed = where[place]
            self.write(place.replace("/", "_"), os.path.join(w, path), items, form + len(self.files))
            if place in system[1:]:
                continue
            if self.counts(place, case):
                self.layers.append((printed, self.modelled))
        if case["layers"].get("f") is not None:
            forms = [(b"rc", "rc"), (b"my rc", "./my rc"), (b"conf/detoxrc.conf", S(w) + "/conf/detoxrc.conf"), (b"\xc3\xa9", "\xc3\xa9")]
            path, printed = forms[dice(4)]
            self.write("f", os.path.join(w, path), case["layers"]["f"], form)
            self.layers = [(printed, self.modelled)]
            self.opts += ["-f", printed]
        # none of these is a place to look at
        for path in (b".detoxrc", b"detoxrc", b"detox/detoxrc", b".config/detox/detoxrc"):
            path = os.path.join(w, path)
            if not os.path.lexists(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as f:
                    f.write('sequence default { lower; };\nsequence lure { lower; };\nignore { filename "lure"; filename "a b"; };\n')
        self.search = {}
        for key, spec in (case.get("search") or {}).items():
            folder, name = os.path.split(key)
            if folder:
                d = self.fixed + B(folder) + b"/detox"
            else:
                d = os.path.join(w, b"pbtdata", b"detox")
            rank = SHARED.index(folder or "pbtdata")
            if rank <= self.search.get(name, (9, 0))[0]:
                self.search[name] = (rank, spec)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, B(name) + b".tbl"), "wb") as f:
                f.write(conf.table_text(spec))

    @staticmethod
    def counts(place, case):
        return place in SYSTEM or case.get(place, True) is True

    def write(self, place, path, items, form):
        """Stores the tables and then the file that names them."""
        os.makedirs(os.path.dirname(path), exist_ok=True)
        dice = conf.Dice(form)
        written, self.modelled = [], []
        n = 0
        for it in items:
            if "ignore" in it:
                written.append(it)
                self.modelled.append(it)
                continue
            a, b = [], []
            for f in it["filters"]:
                if isinstance(f.get("table"), dict):
                    n += 1
                    names = ["tables_%s/t%d.tbl" % (place, n), "t_%s_%d" % (place, n), S(self.w) + "/tables %s/%d" % (place, n), "tab_%s/%d/table" % (place, n), "tab_%s/%d/table" % (place, n)]
                    name = names[dice(5)]
                    full = os.path.join(self.w, B(name))
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    with open(full, "wb") as out:
                        out.write(conf.table_text(f["table"]))
                    a.append(dict(f, table=name))
                    b.append(dict(f, table=conf.table_model(f["table"]), path=name))
                else:
                    a.append(f)
                    b.append(f)
            written.append(dict(it, filters=a))
            self.modelled.append(dict(it, filters=b))
        self.files[place] = path
        with open(path, "wb") as out:
            out.write(conf.config_text(written, form, lambda name: name))

    def effective(self):
        """[(name, filters, source)], [ignored names]"""
        if not self.layers:
            return ([(n, fl, BUILTIN_SOURCE) for n, fl in model.SHIPPED.items()], [S(n) for n in model.SHIPPED_IGNORE])
        return merge(self.layers)

    def runnable(self, filters):
        """The filters, with the tables that a search finds."""
        out = []
        for f in filters:
            if f["f"] in model.DEFAULT_BUILTIN and not f.get("builtin") and "table" not in f:
                spec = self.search.get({"utf_8": "unicode"}.get(f["f"], f["f"]))
                if spec is not None:
                    f = dict(f, table=conf.table_model(spec[1]))
            out.append(f)
        return out


def merge(layers):
    seqs, ignored = {}, []
    for source, items in layers:
        for it in items:
            if "ignore" in it:
                ignored += it["ignore"]
            else:
                seqs[it["seq"]] = (it["filters"], source)
    return [(n, fl, src) for n, (fl, src) in seqs.items()], ignored


def choose(seqs, wanted):
    """The position of the sequence to use, or None."""
    names = [n for n, _, _ in seqs]
    if wanted is not None:
        return names.index(wanted) if wanted in names else None
    if "default" in names:
        return names.index("default")
    return 0 if names else None


def listing(seqs, ignored, chosen, verbose):
    """What -L, or -L -v, prints."""
    out = []
    if not verbose:
        out.append("available sequences:")
        out += ["\t%s%s" % (n, " (*)" if i == chosen else "") for i, (n, _, _) in enumerate(seqs)]
    else:
        for i, (n, filters, source) in enumerate(seqs):
            if i:
                out.append("")
            out.append("sequence name: %s%s" % (n, " (*)" if i == chosen else ""))
            out.append("\tsource file: %s" % source)
            for f in filters:
                out.append("\tcleaner: %s" % KIND_LABEL.get(f["f"], f["f"]))
                if f["f"] == "wipeup":
                    out.append("\t\tremove trailing: %s" % ("yes" if f.get("trailing") else "no"))
                if f["f"] == "max_length":
                    out.append("\t\tlength: %d" % min(f.get("length", 0), HUGE))
                if f.get("path") is not None:
                    out.append("\t\ttranslation table: %s" % f["path"])
                elif f.get("builtin"):
                    out.append("\t\tbuiltin table: %s" % f["builtin"])
    if ignored:
        out += ["", "files to ignore:"] + ["\t%s" % n for n in ignored]
    return B("\n".join(out) + "\n") if out else b""


def compare_listing(got, want, what):
    # lengths no name can have are all alike
    got = re.sub(rb"\tlength: (\d+)", lambda m: b"\tlength: %d" % min(int(m[1]), HUGE), got)
    if got == want:
        return
    a, b = got.split(b"\n"), want.split(b"\n")
    for x, y in zip(a, b):
        if x != y:
            raise Violation("%s: %r instead of %r" % (what, x, y))
    raise Violation("%s: %d lines instead of %d: %r" % (what, len(a), len(b), (a + [b""])[len(b) - 1:len(b) + 3]))
