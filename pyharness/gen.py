"""Generators and plain models.  A draw of zero is the simplest choice."""

LETTERS = "abcdexAZ019.,-/:%#~|[]_'"
ESCAPED = ["\n", '"', "\\", "\t", "\r", "\x08"]
CONTROL = ["\x01", "\x07", "\x1b", "\x1c", "\x1f", "\x7f", "\x85", "\x9f", "\x02"]
UNICODE = list("éñßЖאش中文語。あ한ｗ€😀👩") + ["\xa0", "\u0301", "\u200b", "\u202e", "\u2028", "\u2003", "\u3000", "\ufeff", "\xad", "\u2014", "\U0010ffff", "\ufffd"]
WORDS = [
    "word", "a b", " ", "  ", "the quick brown fox ", "Hello, world!", "%s", "%d files ", "\\n", '\\"', "\\\\", "\\", "msgid", 'msgstr "', "#~ ", "#| ", "#: ",
    "fuzzy", "x\n", "\n\n", "a\\", '""', ' "', "http://example.com/a-b?c=d ", "longunbreakablewordlongunbreakableword", "naïve ", "日本語テキスト", "über-lang ",
    "msgstr[0]", "\\t", "0", "-", "tab\t",
]
FIELDS = [
    "msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt", "obsolete", "comment", "tcomment", "occurrences", "flags",
    "previous_msgid", "previous_msgid_plural", "previous_msgctxt",
]
MOFIELDS = FIELDS[:5]
LISTS = ("msgstr_plural", "occurrences", "flags")


def atom(s):
    w = s.weighted([40, 12, 10, 3, 12, 18])
    if w == 0:
        return s.pick(LETTERS)
    if w == 1:
        return " "
    return s.pick([ESCAPED, CONTROL, UNICODE, WORDS][w - 2])


def text(s, top):
    return "".join(atom(s) for _ in range(s.size(top)))


def prose(s, top):
    o = []
    for _ in range(s.range(1, top)):
        w = s.weighted([8, 10, 3, 2, 1])
        if w == 0:
            o.append(" ")
        elif w == 1:
            o.append(s.pick(["w", "w", "w", "é", "中"]) * s.range(1, 14))
        elif w == 2:
            o.append(s.pick(WORDS))
        elif w == 3:
            o.append(s.pick(ESCAPED))
        else:
            o.append(atom(s))
    return "".join(o)


def big(s):
    """Sizes around which counters and buffers of a fixed width go wrong."""
    return s.pick([s.pick([127, 128, 255, 256, 257, 300]), s.pick([1023, 1024, 1025, 4096, 4097]), s.pick([8191, 8192, 8193, 32768]), s.pick([65535, 65536, 65537, 70000])])


def anytext(s):
    t = prose(s, 40) if s.one_in(5) else text(s, 16)
    if s.one_in(5000):
        t = t or "a"
        n = big(s)
        t = (t * (n // len(t) + 1))[:n]
    return t


def opt(s, num, den, f):
    return f(s) if s.upto(den - 1) >= den - num else None


# what Python takes for a line break or white space, beyond what PO does
ODD = set("\x0b\x0c\x1c\x1d\x1e\x1f\x85\u2028\u2029\r\n\x08")


def plain_line(s, top=10):
    """A comment line: no line breaks, no white space at its ends."""
    return "".join(c for c in text(s, top) if c not in ODD and c.isprintable()).strip()


def comment(s):
    """Not beginning or ending with a blank line."""
    ls = [plain_line(s) for _ in range(s.range(1, 3))]
    ls[0] = ls[0] or "c"
    ls[-1] = ls[-1] or "c"
    # indented lines
    ls = [s.pick([" ", "  ", "    ", "\t", " \t"]) + l if l and s.one_in(4) else l for l in ls]
    return "\n".join(ls)


def path(s):
    if s.bool():
        return s.pick(["a.py", "src/main.rs", "b", "dir/sub/file-name.c", "x_y.html", "ü/ñ.c", "longlonglong/longlonglong/longlonglong/longlonglong.c"])
    return "".join(c for c in text(s, 6) if c.isprintable() and not c.isspace() and c not in ':*"') or "p"


def occurrences(s):
    n = [0, s.range(1, 4), s.range(5, 12)][s.weighted([8, 8, 1])]
    return [(path(s), str(s.upto(2000)) if s.upto(3) else "") if s.upto(11) else (path(s) + ":" + s.pick(["x", "", "b:c", "1:x"]), "") for _ in range(n)]


def flag(s):
    return s.pick(["fuzzy", "c-format", "python-format", "no-wrap", "range: 0..10", "fuzzy2", "Fuzzy", "not fuzzy"])


def flags(s):
    return [flag(s) for _ in range([0, 1, s.range(2, 4)][s.weighted([8, 5, 2])])]


STD_KEYS = [
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version",
    "Content-Transfer-Encoding", "Plural-Forms",
]


def metadata(s, cases=False):
    """With cases, also keys that differ in the case of letters only."""
    m = {}
    for _ in range(s.size(7)):
        k = s.pick([s.pick(STD_KEYS), s.pick(["X-Generator", "X-Poedit-2", "X-Poedit-10", "Foo", "x"])])
        if cases and s.one_in(5):
            k = k.lower()
        v = plain_line(s) if s.bool() else s.pick(["", "1.0", "8bit", "nplurals=2; plural=(n != 1);", "es", "2020-01-01 10:00+0100", "A B <a@b.c>", '"q"', "a: b: c"])
        m[k] = v
    if s.one_in(3):
        m["Content-Type"] = "text/plain; charset=UTF-8"
    return m


def message(s):
    m = blank()
    m["msgid"] = (prose(s, 40) if s.one_in(6) else text(s, 12)) or "a"
    if s.one_in(3):
        m["msgid_plural"] = anytext(s) or "p"
        m["msgstr_plural"] = [anytext(s) for _ in range(s.range(1, 4) if s.upto(8) else s.range(5, 10))]
    else:
        m["msgstr"] = anytext(s)
    m["msgctxt"] = opt(s, 1, 3, anytext)
    m["obsolete"] = s.one_in(5)
    m["comment"] = opt(s, 1, 4, comment)
    m["tcomment"] = opt(s, 1, 4, comment)
    m["occurrences"] = occurrences(s)
    m["flags"] = flags(s)
    if s.one_in(3):
        m["previous_msgid"] = opt(s, 2, 3, anytext)
        m["previous_msgid_plural"] = opt(s, 1, 3, anytext)
        m["previous_msgctxt"] = opt(s, 1, 3, anytext)
    return m


def blank():
    return {
        "msgid": "", "msgstr": None, "msgid_plural": None, "msgstr_plural": [], "msgctxt": None, "obsolete": False, "comment": None, "tcomment": None,
        "occurrences": [], "flags": [], "previous_msgid": None, "previous_msgid_plural": None, "previous_msgctxt": None, "linenum": 0,
    }


def catalog(s, top):
    c = {
        "header": header(s),
        "metadata": metadata(s),
        "fuzzy": s.one_in(4),
        "entries": [message(s) for _ in range(s.size(top))],
    }
    if s.one_in(2000):
        c["entries"] += [dict(blank(), msgid="m%d" % i, msgstr="t%d" % i) for i in range(min(big(s), 1100))]
    return c


def header(s):
    h = opt(s, 2, 3, comment) or ""
    return "\n".join(ln.lstrip(",:") or "h" if ln[:1] in (",", ":") else ln for ln in h.split("\n")) if h else ""


def short(m):
    return ", ".join("%s: %r" % (k, v) for k, v in m.items() if v not in (None, [], False, 0) or k == "msgid")


def fuzzy(m):
    return "fuzzy" in m["flags"]


def translated(m):
    if m["obsolete"] or fuzzy(m):
        return False
    if m["msgstr"] is not None:
        return m["msgstr"] != ""
    return bool(m["msgstr_plural"]) and all(m["msgstr_plural"])


TINY = ["a", "b", "c", "", "A", "ab", "é"]
# strings that a comparison might take for those
ALIKE = ["a ", " a", "a\n", "a\0", "á", "a\u0301", "ａ", "a\x04b", "aa", "É", "e\u0301", "b\t", "\0", " "]


def tiny(s):
    return s.pick(ALIKE) if s.one_in(15) else s.pick(TINY)


def nudge(s, field, v):
    """A value of a field a little different."""
    if field == "obsolete":
        return not v
    if field == "linenum":
        return v + 1
    if field in LISTS:
        v = list(v)
        k = s.below(4)
        if not v or k == 0:
            v.append({"occurrences": ("a", ""), "flags": "no-wrap", "msgstr_plural": "a"}[field])
        elif k == 1:
            v.pop(s.below(len(v)))
        else:
            i = s.below(len(v))
            if field == "occurrences":
                v[i] = (v[i][0], v[i][1] + "1") if s.bool() else (v[i][0] + "a", v[i][1])
            else:
                v[i] = nudge(s, "comment" if field == "flags" else "msgstr", v[i])
        return v
    if not v:
        return "a" if v == "" or field in ("comment", "tcomment") else ""
    if field in ("comment", "tcomment"):
        return s.pick([v + "a", v.swapcase(), v[:-1] + "b", "a" + v])
    return s.pick([v + "a", v + " ", v.swapcase(), v[:-1], v[:-1] + "b", " " + v])


def tiny1(s):
    return s.pick(TINY) or "a"


def tiny_value(s, field):
    """Any value for a field of a message."""
    if field == "msgid":
        return (tiny if s.one_in(3) else tiny1)(s) if s.upto(5) else anytext(s)
    if field == "msgstr_plural":
        return [tiny(s) for _ in range(s.below(4))]
    if field == "obsolete":
        return s.bool()
    if field == "occurrences":
        return [(tiny1(s), s.pick(["1", "2", "10", ""])) for _ in range(s.below(3))]
    if field == "flags":
        return s.pick([[], ["fuzzy"], ["c-format", "fuzzy"], ["fuzzy2"], ["Fuzzy"], ["c-format"]])
    if field == "linenum":
        return s.pick([0, 1, 7, 1 << 40])
    if field in ("comment", "tcomment"):
        return opt(s, 1, 2, tiny1)
    return opt(s, 1, 2, anytext if s.one_in(6) else tiny)


def wild_value(s, field):
    """Any value that a property accepts, whether it can be written or not."""
    if s.upto(2):
        return tiny_value(s, field)
    if field == "msgid":
        return anytext(s) if s.bool() else ""
    if field in ("msgstr_plural", "flags"):
        return [anytext(s) if s.one_in(3) else tiny(s) for _ in range(s.pick([0, 1, 2, 3, 5, 12]))]
    if field == "obsolete":
        return s.bool()
    if field == "occurrences":
        return [(anytext(s) if s.one_in(3) else tiny(s), s.pick(["", "1", "0", "007", "x", " ", "-1", "1:2"])) for _ in range(s.pick([0, 1, 2, 3, 9]))]
    if field == "linenum":
        return s.pick([0, 1, 255, 65536, (1 << 32) - 1, 1 << 32, (1 << 64) - 1])
    return s.pick([None, "", " ", "\n", "a\n", "\0"]) if s.bool() else anytext(s)


def tiny_message(s):
    m = blank()
    for f in FIELDS:
        if f == "msgid" or s.bool():
            m[f] = tiny_value(s, f)
    return fix(s, m)


def fix(s, m):
    """A translation is singular or plural, not both."""
    if m["msgstr_plural"] and m["msgstr"] is not None:
        if s.bool():
            m["msgstr"] = None
        else:
            m["msgstr_plural"] = []
    return m


ESC = {'"': '"', "\\": "\\", "\n": "n", "\r": "r", "\t": "t", "\x08": "b", "\x11": "v", "\x12": "f"}
UNESC = {v: k for k, v in ESC.items()}


def escape(t):
    return "".join("\\" + ESC[c] if c in ESC else c for c in t)


def unescape(t):
    """The string, or None if it has a bad escape."""
    o, i = [], 0
    while i < len(t):
        if t[i] != "\\":
            o.append(t[i])
            i += 1
            continue
        if i + 1 >= len(t) or t[i + 1] not in UNESC:
            return None
        o.append(UNESC[t[i + 1]])
        i += 2
    return "".join(o)
