"""Writes MANIFEST.json: python3-vt tools/manifest.py"""
import json
import os

TECH = {
    "C01": ("property-based testing, invariant over trees before and after", "Random trees, arguments and sequences; identity, type, mode, links, contents and times of every entry compared."),
    "C02": ("property-based testing, reference model and invariant", "Names and tables built to decode to slashes, dots or nothing; parents, names and messages compared with the model."),
    "C03": ("property-based testing against a reference model of the filters", "Model written from the manual pages; trusts that model, which is also compared with the shipped tables in every run."),
    "C04": ("property-based testing against a reference model of scope", "Trees with hidden, ignored, linked and special entries against a scope predicate."),
    "C05": ("property-based testing, differential (dry run against real run)", "Everything lstat tells before and after; announcements against the renames of a real run on a twin tree."),
    "C06": ("property-based testing, metamorphic (run twice)", "Random names and all short strings over the characters that matter; pairs of runs over trees."),
    "C07": ("property-based testing with generated readdir schedules (preloaded shim)", "Orders, repetitions and stale entries of directory listings are generated; assumes readdir semantics that POSIX allows."),
    "C08": ("property-based testing against a reference model, exhaustive over short strings", "All single bytes and all short strings over the special characters, plus random ones."),
    "C09": ("property-based testing of generated tables against a dictionary model", "Tables with colliding and extreme codes, chains, defaults; long and short translations."),
    "C10": ("property-based testing against an independent UTF-8 decoder, exhaustive over code points", "Every code point and all short malformed sequences over edge bytes, plus random mixtures."),
    "C11": ("property-based testing against Python's codecs, exhaustive over bytes", "Every byte alone and in context; one known finding (legacy sequence) is reported as such."),
    "C12": ("property-based testing, reference model and round trip", "All two-character escapes, random strings, encode/decode round trips."),
    "C13": ("property-based testing against a reference model, exhaustive over short strings", "All strings of up to six characters of the alphabet, plus random long ones."),
    "C14": ("property-based testing against a reference model with relations stated separately", "Limits around name and extension lengths; prefix, suffix and length relations checked besides the model."),
    "C15": ("property-based testing, differential over locales", "Locales compiled by the check with localedef where available, besides C and C.UTF-8."),
    "C16": ("property-based testing of streams, reference model and differential (stdin against files)", "Line lengths around every buffer multiple, splits into files, with and without a last newline."),
    "C17": ("property-based testing, metamorphic over the written form of a table", "One table in several written forms against the dictionary it stands for; locales as in C15."),
    "C18": ("property-based testing of generated configurations against an ordered-dictionary model", "All layers and -f; listings, streams and trees compared."),
    "C19": ("mutation-based testing of config files against an independent parser, fault cases for tables", "Token edits of generated files, judged by a parser written from the grammar in the manual."),
    "C20": ("sanitized property-based testing (ASan, UBSan, MSan) and coverage-guided fuzzing (libFuzzer)", "Generated, mutated and fuzzed inputs to all programs; absence of reports on what was run, not a proof."),
    "C21": ("exhaustive and property-based differential testing (builtin against shipped; tools against a dictionary)", "Every code point of every table; generated tables through both tools, a share of the output compiled and run."),
    "C22": ("property-based testing with injected system call and allocation failures (preloaded shim)", "Single and multiple failing calls at generated points of recorded runs; read-only and unreadable directories."),
    "C23": ("property-based testing of sizes, model of the final names", "One dimension at a time up to thousands (tens of thousands in the thorough tier), around growth steps."),
    "C24": ("property-based testing of command lines against a model of option handling, metamorphic spelling", "Random options, spellings and orders against canonical commands and a model."),
    "C25": ("exhaustive and property-based round trip through a C literal reader and gcc", "Every code point in every run; random text; a share compiled with gcc."),
    "C26": ("property-based testing with kills at generated crash points (preloaded shim)", "Kills before chosen or all calls that touch the tree, repeated kills; then completion compared with an uninterrupted twin."),
    "C27": ("property-based testing, invariant over outcome and messages", "Families of competing names of all kinds of entries; messages matched one to one with blocked entries."),
    "C31": ("metamorphic property-based testing over the contexts of a run", "The same generated command in a plain context and in a generated one (environment, descriptors, terminals, umask, signals, current directory, file contents, modes and times, delivery of standard input) has to do the same; POSIXLY_CORRECT left out."),
    "C32": ("model-based property-based testing over places of table files", "Generated sequences of table filters, with tables in every subset of the places searched and in places not searched (fixed paths through a shim that moves them into the scratch folder), against a model of the lookup."),
    "C30": ("differential property-based testing across builds of the same sources", "Six builds (gcc and clang, -O0 to -O3, signed and unsigned char, with and without DEBUG, getopt_long and st_blocks, patterned memory) are given the same generated configurations, tables, streams, trees and command lines, and must agree."),
    "C29": ("property-based testing with generated points of failure for output and input", "Standard output limited to a generated number of bytes, full, closed or an unread pipe; reads that fail after a generated number of bytes (preloaded shim)."),
    "C28": ("property-based testing, replay of the output on a twin tree", "Every announced rename replayed with rename(2) on a copy; read-only directories included."),
}

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
assert set(ids) == set(TECH), set(ids) ^ set(TECH)
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [{
        "property": i,
        "quick_cmd": "./check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i][0],
        "level": "fault_enumeration" if i in ("C22", "C26", "C29") else "exploration",
        "level_note": TECH[i][1],
    } for i in ids],
    "not_applicable": [],
    "notes": "No hooks in /repo. See DESIGN.md; KNOWN_FINDINGS.json lists the one known finding and the defects that were fixed.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
