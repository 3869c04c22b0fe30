"""Messages and messages that are almost the same."""

import unicodedata

PIECES = ["pay", "Pay", "100", "bob", "é", "e\u0301", "ß", "ss", "ﬁ", "fi", " ", "  ", "\t", "\n", "\r\n", "\u0000", "\u200b",
          "\ufeff", "日", "𝔸", "A", "a", "α", "а", "İ", "i", "0", "00", "1.0", "-", "{", "}", "\"", "\\", "\u2028", "Ω", "\u2126",
          "%s", "=", "&", "x", "\x7f", "\u0085", "K", "\u212a", "?", "\ufffd", "&#233;", "%C3%A9"]


def make(ch):
    how = ch.weighted([("pieces", 8), ("empty", 1), ("none", 1), ("long", 2), ("one", 2)])
    if how == "none":
        return None
    if how == "empty":
        return ""
    if how == "one":
        return ch.pick(PIECES)
    n = 1 + ch.draw(6)
    s = "".join(ch.pick(PIECES) for _ in range(n))
    if how == "long":
        s += ch.pick(["x", "ab", "é"]) * ch.pick([31, 64, 127, 128, 255, 256, 600, 1024, 5000, 33000])
        s += ch.pick(PIECES)
    return s


def near(ch, m):
    """Another message; (kind, text).  The empty message and none at all are the same."""
    s = m or ""
    cand = {}

    def add(kind, t):
        if t != s:
            cand.setdefault(kind, []).append(t)

    n = len(s)
    if s:
        add("empty", "")
        add("prefix", s[:-1])
        add("prefix", s[: n // 2])
        add("prefix", s[:ch.draw(n)])
        add("suffix", s[1:])
        i = ch.draw(n)
        add("char", s[:i] + chr((ord(s[i]) + 1) % 0xD000) + s[i + 1:])
        add("char", s[:-1] + chr((ord(s[-1]) + 1) % 0xD000))
        add("char", chr((ord(s[0]) + 1) % 0xD000) + s[1:])
        add("deleted", s[:i] + s[i + 1:])
        add("reversed", s[::-1])
        add("twice", s + s)
        add("swapped", s[:i] + s[i + 1:i + 2] + s[i] + s[i + 2:])
        for k in (16, 32, 64, 128, 255, 256, 512, 1024, 4096, 32768):
            if n > k:
                add("cut-%d" % k, s[:k])
                add("tail-%d" % k, s[:k] + "y" + s[k + 1:])
    add("case", s.lower())
    add("case", s.upper())
    add("case", s.swapcase())
    add("case", s.casefold())
    add("trimmed", s.strip())
    add("spaces", " ".join(s.split()))
    add("spaces", "".join(s.split()))
    add("newlines", s.replace("\r\n", "\n"))
    for f in ("NFC", "NFD", "NFKC", "NFKD"):
        add("normal-form", unicodedata.normalize(f, s))
    add("nul", s.split("\u0000")[0])
    add("nul", s.replace("\u0000", ""))
    add("invisible", s.replace("\u200b", "").replace("\ufeff", ""))
    add("ascii", s.encode("ascii", "ignore").decode())
    add("ascii", s.encode("ascii", "replace").decode())
    add("latin", s.encode("latin1", "replace").decode("latin1"))
    add("latin", s.encode("utf8").decode("latin1"))
    add("latin", s.encode("ascii", "xmlcharrefreplace").decode())
    add("latin", s.encode("ascii", "backslashreplace").decode())
    # text that is no valid Unicode must not be taken for another one
    half = ch.pick(["\ud800", "\ud83d", "\udc80", "\udce9", "\udfff"])
    add("surrogate", s.replace("?", half))
    add("surrogate", s.replace("\ufffd", half))
    add("surrogate", s.replace("é", half))
    add("surrogate", s + half)
    add("surrogate", half + s)
    if s:
        add("surrogate", s[:i] + half + s[i:])
        add("surrogate", s[:i] + half + s[i + 1:])
    add("printable", "".join(c for c in s if c.isprintable()))
    for x in (" ", "\n", "\u0000", "x", "0", "\u200b", "\ufeff"):
        add("extension", s + x)
        add("front", x + s)
    add("other", s + "#other")
    add("other", "unrelated")
    add("other", repr(s))
    add("other", "None")
    add("hex", s.encode("utf8").hex())
    kind = ch.pick(sorted(cand))
    return kind, ch.pick(cand[kind])


def route(ch, ctx, m):
    """What a relay may do to a message on its way without changing it."""
    how = ch.pick(["str", "utf8", "utf16", "json"])
    if m is None or how == "str":
        return m
    if how == "utf8":
        return m.encode("utf8").decode("utf8")
    if how == "utf16":
        return m.encode("utf-16").decode("utf-16")
    import json

    return json.loads(json.dumps(m))
