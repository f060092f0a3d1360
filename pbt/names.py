"""Hypothesis strategies for names, tables and sequences.  Text is latin-1."""

from hypothesis import strategies as st

from . import gen

SAFE_SPECIALS = " !\"$'*:;<>?@\\`|()[]{}&"
RUNS = ["_", "-", ".", "__", "--", "..", "_-", "-_", "._", ".-", "_.", "-.", "#", "_#-", " - ", "_-_.", "...-"]
PLAIN = ["a", "b", "c", "X", "Y", "Z", "0", "9", "foo", "Bar", "BAZ", "mix", "q", "=", ",", "~", "^", "%", "+"]
EXT = [".txt", ".tar.gz", ".c", ".", ".JPG", ".toolong", ".a.b", ".tar.bz2", ".x.yyyy", ".x.yyyyy"]
CGI = ["%20", "%41", "%2e", "%25", "%2B", "%C3%A9", "%", "%4", "%g1", "%7E", "%00", "%0", "%5f", "%e9", "%25%32%30", "%2541", "%1f", "%+", "+"]
CGI_SLASH = ["%2f", "%2F", "%2e%2e%2f"]


def u(*cps):
    out = []
    for c in cps:
        out.append(chr(c).encode("utf-8", "surrogatepass").decode("latin-1"))
    return out


UTF8 = u(0xE9, 0xDF, 0x100, 0x7FF, 0x800, 0x20AC, 0x4E2D, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF, 0x3B1, 0x80, 0x85, 0x9F, 0xFF, 0xFEFF)
UTF8_MAPPED = u(0xA0, 0xAD, 0x2000, 0x2005, 0x200A, 0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2015,
                0x2017, 0x2028, 0x2029, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x202F, 0x2044, 0x205F, 0x2060)
UTF8_NEAR = u(0x9E, 0xA1, 0xAC, 0xAE, 0x1FFF, 0x2016, 0x2018, 0x2019, 0x2027, 0x2030, 0x2043, 0x2045, 0x205E, 0x2061)
UTF8_BAD = ["\x80", "\xbf", "\xc3", "\xe2\x80", "\xe2", "\xf0\x9f\x98", "\xf0\x9f", "\xfe", "\xff", "\xc0\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80",
            "\xc1\x81", "\xe0\x81\x81", "\xf8\x88\x80\x80\x80", "\xf8\x80\x80\x81\x81", "\xfc\x84\x80\x80\x80\x80", "\xf4\x90\x80\x80", "\xf7\xbf\xbf\xbf",
            "\xed\xa0\x80", "\xc3a", "\xe2a", "\xe2\x82a", "\xf0\x9fa", "\xfb\xbf\xbf\xbf\xbf", "\xfd\xbf\xbf\xbf\xbf\xbf", "\xfc\x80\x80\x80\x80\x80", "\xc0\xae", "\xc0\xa0"]
UTF8_SLASH = ["\xc0\xaf", "\xe0\x80\xaf"]
HIGH = ["\x80", "\x81", "\x85", "\x8d", "\x95", "\x9f", "\xa0", "\xa1", "\xad", "\xbf", "\xc0", "\xc4", "\xd6", "\xdf", "\xe9", "\xff"]
CTRL = ["\x01", "\x07", "\x08", "\t", "\x0b", "\r", "\x1b", "\x1f", "\x7f"]

ALL = PLAIN * 3 + list(SAFE_SPECIALS) * 2 + RUNS * 2 + EXT + CGI + UTF8 + UTF8_MAPPED + UTF8_NEAR + UTF8_BAD + HIGH + CTRL


def no_specials(text, newline=False):
    text = text.replace("/", "").replace("\0", "")
    return text if newline else text.replace("\n", "")


def byte_text(min_size=0, max_size=4, ascii_only=False):
    return st.binary(min_size=min_size, max_size=max_size).map(
        lambda b: bytes(x & 0x7F for x in b).decode("latin-1") if ascii_only else b.decode("latin-1"))


def raw_name(tokens=None, max_tokens=10, newline=False, max_len=255, extra=None):
    """A name without '/', NUL (and newline); possibly '.' , '..' or long."""
    toks = list(tokens or ALL)
    if extra:
        toks += extra
    piece = gen.one_of(st.sampled_from(toks), st.sampled_from(toks), st.sampled_from(toks), byte_text(1, 3))
    short = st.lists(piece, min_size=1, max_size=max_tokens).map("".join)
    return short.map(lambda t: no_specials(t, newline)[:max_len]).map(lambda t: t or "a")


def long_name(max_len=255, tokens=None):
    toks = list(tokens or ALL)
    return st.tuples(st.sampled_from(toks), st.integers(1, max_len), raw_name(toks, 4), st.sampled_from(EXT + [""])).map(
        lambda t: (no_specials(t[0] * t[1]) + t[2] + t[3])[:max_len] or "a")


def fs_name(tokens=None, max_tokens=8, newline=True, max_len=255, extra=None):
    """A name a directory entry can have."""
    return raw_name(tokens, max_tokens, newline, max_len, extra).map(lambda t: t + "x" if t in (".", "..") else t)


def ascii_upper(t):
    return "".join(c.upper() if c < "\x80" else c for c in t)


def ascii_lower(t):
    return "".join(c.lower() if c < "\x80" else c for c in t)


def family(max_tokens=5, tokens=None, extra=None):
    """A few names that tend to clean to the same result."""

    def expand(base):
        out = [base, base.replace(" ", "_"), "_" + base, base + " ", base.replace("_", " "), base.replace("-", "("),
               base + "&", ascii_upper(base), ascii_lower(base), "-" + base, base.replace(" ", "!"), base.replace("_", "__")]
        out += [S(run(B(base)[:200])) for run in CLEANERS]
        seen = []
        for n in out:
            n = no_specials(n, True)[:255]
            if n and n not in (".", "..") and n not in seen:
                seen.append(n)
        return seen

    return fs_name(tokens, max_tokens, extra=extra).map(expand)


def B(t):
    return t.encode("latin-1")


def S(b):
    return b.decode("latin-1")


def _cleaners():
    from . import model

    return [lambda n, f=f: model.run_filters(f, n) for f in (model.SHIPPED["default"], model.SHIPPED["lower"], model.SHIPPED["utf_8"], model.SHIPPED["uncgi"])]


CLEANERS = _cleaners()
