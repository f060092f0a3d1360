"""Builds detox from /repo's working tree into a scratch directory.

The source lists come from src/Makefile.am, so that files added to the tree are
picked up.  config.h is written here; /repo is only read.
"""

import hashlib
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# The committed parser and scanner are compiled while their sources are those
# of the pinned commit; otherwise bison and flex are run, as the build does.
PINNED = {
    "config_file_yacc.y": "1a6a8cb9815ec2bc3114a3b4fd2e42c097fe54a3d3e658ae091b3ff152f39823",
    "config_file_lex.l": "29040c7332d82598d35ad4dcc558916e79f52df505c815e976d2e911077a39df",
}

CLANG = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"
VARIANTS = {
    "plain": ["gcc", "-g", "-O2", "-D_FORTIFY_SOURCE=2"],
    "asan": [
        "gcc", "-g", "-O1", "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
    ],
    "fuzz": [
        CLANG, "-g", "-O1", "-fno-omit-frame-pointer",
        "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=undefined",
    ],
    "msan": [CLANG, "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins"],
    # other ways to build it; see C30
    "unsigned": ["gcc", "-g", "-O0", "-funsigned-char"],
    "clang": [CLANG, "-g", "-O3"],
    "debug": ["gcc", "-g", "-O3", "-fsigned-char", "-DDEBUG"],
    "small": ["gcc", "-g", "-Os", "-ftrivial-auto-var-init=pattern", "-include", "unistd.h", "-DPBT_NO_GETOPT_LONG", "-DPBT_NO_ST_BLOCKS"],
    "odd": [CLANG, "-g", "-O1", "-funsigned-char", "-ftrivial-auto-var-init=pattern"],
}
LINK = {
    "plain": ["gcc"],
    "asan": ["gcc", "-fsanitize=address,undefined"],
    "fuzz": [CLANG, "-fsanitize=fuzzer,address,undefined"],
    "msan": [CLANG, "-fsanitize=memory"],
    "unsigned": ["gcc"],
    "clang": [CLANG],
    "debug": ["gcc"],
    "small": ["gcc"],
    "odd": [CLANG],
}

# Relative on purpose: resolved against the directory a case runs in.
DATADIR = "pbtdata"
SYSCONFDIR = "pbtetc"


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")))
    return p.stdout


def sources(program):
    """The source list of a program, from Makefile.am."""
    with open(os.path.join(REPO, "src", "Makefile.am")) as f:
        text = f.read().replace("\\\n", " ")
    m = re.search(r"^%s_SOURCES\s*=\s*(.*)$" % program, text, re.M)
    if not m:
        raise BuildError("no %s_SOURCES in Makefile.am" % program)
    names = [n for n in m.group(1).split() if not n.endswith(".h")]
    return [re.sub(r"\.[yl]$", ".c", n) for n in names]


def version():
    with open(os.path.join(REPO, "configure.ac")) as f:
        m = re.search(r"AC_INIT\(\[([^]]*)\],\s*\[([^]]*)\]", f.read())
    return m.group(1), m.group(2)


def config_h():
    name, ver = version()
    defs = ["HAVE_GETOPT_LONG", "HAVE_INTTYPES_H", "HAVE_STDINT_H", "HAVE_STDIO_H",
            "HAVE_STDLIB_H", "HAVE_STRINGS_H", "HAVE_STRING_H", "HAVE_STRUCT_STAT_ST_BLOCKS",
            "HAVE_ST_BLOCKS", "HAVE_SYS_STAT_H", "HAVE_SYS_TYPES_H", "HAVE_UNISTD_H",
            "STDC_HEADERS", "YYTEXT_POINTER"]
    out = ["#define %s 1" % d for d in defs]
    out += ["#ifdef PBT_NO_GETOPT_LONG", "#undef HAVE_GETOPT_LONG", "#endif"]
    out += ["#ifdef PBT_NO_ST_BLOCKS", "#undef HAVE_STRUCT_STAT_ST_BLOCKS", "#undef HAVE_ST_BLOCKS", "#endif"]
    out += ['#define PACKAGE "%s"' % name, '#define PACKAGE_NAME "%s"' % name,
            '#define PACKAGE_TARNAME "%s"' % name, '#define PACKAGE_VERSION "%s"' % ver,
            '#define VERSION "%s"' % ver, '#define PACKAGE_STRING "%s %s"' % (name, ver),
            '#define PACKAGE_BUGREPORT ""', '#define PACKAGE_URL ""']
    return "\n".join(out) + "\n"


class Build:
    """One scratch copy of the sources, compiled in one or more variants."""

    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")
        shutil.copytree(os.path.join(REPO, "src"), self.src,
                        ignore=shutil.ignore_patterns("*.o", ".deps", "Makefile", "Makefile.in"))
        with open(os.path.join(self.src, "config.h"), "w") as f:
            f.write(config_h())
        for name, digest in PINNED.items():
            path = os.path.join(self.src, name)
            with open(path, "rb") as f:
                same = hashlib.sha256(f.read()).hexdigest() == digest
            if same:
                continue
            out = path[:-2] + ".c"
            if name.endswith(".y"):
                sh(["bison", "-y", "-d", "-o", out, path], cwd=self.src)
            else:
                sh(["flex", "-i", "-o", out, path], cwd=self.src)

    def flags(self):
        return ["-w", "-I" + self.src, "-DHAVE_CONFIG_H", '-DDATADIR="%s"' % DATADIR,
                '-DSYSCONFDIR="%s"' % SYSCONFDIR, "-DYY_NO_INPUT", "-DYY_NO_UNPUT"]

    def objects(self, variant, names, pool):
        odir = os.path.join(self.root, variant)
        os.makedirs(odir, exist_ok=True)
        jobs = []
        for n in names:
            obj = os.path.join(odir, n[:-2] + ".o")
            cmd = VARIANTS[variant] + self.flags() + ["-c", os.path.join(self.src, n), "-o", obj]
            jobs.append(pool.submit(sh, cmd, self.src))
        return jobs

    def compile(self, wants):
        """wants: list of (variant, program).  Returns {(variant, program): path}."""
        out = {}
        with ThreadPoolExecutor(8) as pool:
            need = {}
            for variant, program in wants:
                need.setdefault(variant, set()).update(sources(program.replace("-", "_")))
            jobs = []
            for variant, names in need.items():
                jobs += self.objects(variant, sorted(names), pool)
            for j in jobs:
                j.result()
            jobs = []
            for variant, program in wants:
                odir = os.path.join(self.root, variant)
                path = os.path.join(odir, program)
                objs = [os.path.join(odir, n[:-2] + ".o")
                        for n in sources(program.replace("-", "_"))]
                jobs.append(pool.submit(sh, LINK[variant] + objs + ["-lm", "-o", path]))
                out[(variant, program)] = path
            for j in jobs:
                j.result()
        for variant, program in wants:
            if program == "detox":
                link = os.path.join(self.root, variant, "inline-detox")
                shutil.copy2(out[(variant, "detox")], link)
                out[(variant, "inline-detox")] = link
        return out

    def shim(self, name):
        path = os.path.join(self.root, name + ".so")
        sh(["gcc", "-g", "-O1", "-w", "-shared", "-fPIC",
            os.path.join(VERIF, "shims", name + ".c"), "-o", path, "-ldl"])
        return path
