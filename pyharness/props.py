"""C26-C30."""
import gettext
import io
import os
import resource
import shutil
import stat
import errno
import struct

import polib
import rspolib

import gen
from engine import Fail, ensure
from gen import FIELDS, LISTS, MOFIELDS, short, translated


class Prop:
    def __init__(self, id, quick, thorough, rule, assumptions, case):
        self.id, self.quick, self.thorough, self.rule, self.assumptions, self.case = id, quick, thorough, rule, assumptions, case


# --------------------------------------------------------------- adapters

def rs_entry(m):
    """A message built with the constructor and the setters."""
    e = rspolib.POEntry(
        msgid=m["msgid"], msgstr=m["msgstr"], msgid_plural=m["msgid_plural"], msgstr_plural=m["msgstr_plural"], msgctxt=m["msgctxt"], tcomment=m["tcomment"],
        comment=m["comment"], flags=m["flags"],
    )
    for f in ("obsolete", "occurrences", "previous_msgid", "previous_msgid_plural", "previous_msgctxt", "linenum"):
        setattr(e, f, m[f])
    return e


def rs_get(e, f):
    return list(getattr(e, "get_" + f)()) if f in LISTS else getattr(e, f)


def rs_model(e):
    m = {f: rs_get(e, f) for f in FIELDS}
    m["linenum"] = e.linenum
    return m


def rs_file(c, ww):
    f = rspolib.POFile(wrapwidth=ww)
    f.header = c["header"]
    f.metadata = c["metadata"]
    f.metadata_is_fuzzy = c["fuzzy"]
    f.entries = [rs_entry(m) for m in c["entries"]]
    return f


def norm(m):
    """What both libraries can tell of a message."""
    m = {k: m[k] for k in FIELDS}
    for k in ("msgid_plural", "comment", "tcomment"):
        m[k] = m[k] or ""
    m["msgstr"] = "" if m["msgstr_plural"] else m["msgstr"] or ""
    return m


def rs_norm(f):
    return {
        "header": f.header,
        "metadata": dict(f.get_metadata()),
        "fuzzy": bool(f.metadata_is_fuzzy),
        "entries": [norm(rs_model(e)) for e in f],
    }


def po_entry(m):
    return polib.POEntry(
        msgid=m["msgid"], msgstr=m["msgstr"] or "", msgid_plural=m["msgid_plural"] or "", msgstr_plural=dict(enumerate(m["msgstr_plural"])), msgctxt=m["msgctxt"],
        obsolete=m["obsolete"], comment=m["comment"] or "", tcomment=m["tcomment"] or "", occurrences=list(m["occurrences"]), flags=list(m["flags"]),
        previous_msgid=m["previous_msgid"], previous_msgid_plural=m["previous_msgid_plural"], previous_msgctxt=m["previous_msgctxt"],
    )


def po_norm(f):
    es = []
    for e in f:
        m = {k: getattr(e, k) for k in FIELDS}
        ks = sorted(e.msgstr_plural)
        m["msgstr_plural"] = [e.msgstr_plural[k] for k in ks]
        m["occurrences"] = [tuple(o) for o in e.occurrences]
        m["obsolete"] = bool(e.obsolete)
        es.append(norm(m))
    return {"header": f.header, "metadata": dict(f.metadata), "fuzzy": bool(f.metadata_is_fuzzy), "entries": es}


def written(c, by):
    """What the text of a catalog says, written by "rs" or "po"."""
    def one(m):
        m = norm(m)
        if m["obsolete"]:
            m["occurrences"] = []
            m["previous_msgid"] = m["previous_msgid_plural"] = m["previous_msgctxt"] = None
            if by == "po":
                m["comment"] = ""
        m["comment"] = "\n".join(x for x in m["comment"].split("\n") if x.strip())
        return m

    es = [one(m) for m in c["entries"]]
    return dict(c, entries=[m for m in es if not m["obsolete"]] + [m for m in es if m["obsolete"]])


def same(got, want, who):
    for k in ("header", "metadata", "fuzzy"):
        ensure(got[k] == want[k], "%s: %s is %r, expected %r", who, k, got[k], want[k])
    for i, (g, w) in enumerate(zip(got["entries"], want["entries"])):
        for f in FIELDS:
            ensure(g[f] == w[f], "%s: %s of message %d is %r, expected %r", who, f, i, g[f], w[f])
    ensure(len(got["entries"]) == len(want["entries"]), "%s: %d messages, expected %d", who, len(got["entries"]), len(want["entries"]))


def fit(c, ww):
    """Without the comments that would be wrapped."""
    for m in c["entries"]:
        for k in ("comment", "tcomment"):
            if m[k] and ww and any(2 * len(x) + 3 > ww for x in m[k].split("\n")):
                m[k] = None


def show(c):
    return "header %r, metadata %r, fuzzy %r\n  %s" % (c["header"], c["metadata"], c["fuzzy"], "\n  ".join(short(m) for m in c["entries"]))


# -------------------------------------------------------------------- C26

def po_read(ctx, text):
    """polib splits text at more characters than files: always by file."""
    p = os.path.join(ctx.scratch, "x.po")
    with io.open(p, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    return p, polib.pofile(p, encoding="utf-8")


def spread(s, t):
    """An escaped string in several pieces."""
    atoms, i = [], 0
    for ch in t:
        atoms.append("\\" + gen.ESC[ch] if ch in gen.ESC else ch)
    if not s.one_in(3):
        return ["".join(atoms)]
    out = [""] if s.bool() else []
    while i < len(atoms):
        n = s.range(1, 12)
        out.append("".join(atoms[i:i + n]))
        i += n
    return out or [""]


def lay(s, c):
    """A document in a free layout, and its line ends."""
    eol = "\r\n" if s.one_in(8) else "\n"
    out = []

    def field(pre, name, t):
        ps = spread(s, t)
        out.append("%s%s%s\"%s\"" % (pre, name, s.pick([" ", " ", "  ", "\t"]), ps[0]))
        for p in ps[1:]:
            out.append("%s\"%s\"" % (pre, p))

    def comment(mark, t):
        for x in t.split("\n"):
            out.append(mark + " " + x if x else mark)

    if c["header"]:
        comment("#", c["header"])
    if c["fuzzy"]:
        out.append("#, fuzzy")
    field("", "msgid", "")
    field("", "msgstr", "".join("%s: %s\n" % kv for kv in c["metadata"].items()))
    for m in c["entries"]:
        out.extend([""] * s.pick([1, 1, 1, 2, 3]))
        pre = "#~ " if m["obsolete"] else ""
        parts = []
        if m["tcomment"]:
            parts.append("t")
        if m["comment"]:
            parts.append("c")
        if m["occurrences"]:
            parts.append("o")
        if m["flags"]:
            parts.append("f")
        if s.one_in(3):
            k = s.below(max(1, len(parts)))
            parts = parts[k:] + parts[:k]
        for p in parts:
            if p == "t":
                comment("#", m["tcomment"])
            elif p == "c":
                comment("#.", m["comment"])
            elif p == "o":
                os_ = ["%s:%s" % o if o[1] else o[0] for o in m["occurrences"]]
                while os_:
                    k = s.range(1, len(os_))
                    out.append("#: " + s.pick([" ", "  "]).join(os_[:k]))
                    os_ = os_[k:]
            else:
                fs = list(m["flags"])
                while fs:
                    k = s.range(1, len(fs))
                    out.append("#, " + s.pick([", ", ","]).join(fs[:k]))
                    fs = fs[k:]
        if not m["obsolete"]:
            for k in ("msgctxt", "msgid", "msgid_plural"):
                if m["previous_" + k] is not None:
                    field("#| ", k, m["previous_" + k])
        if m["msgctxt"] is not None:
            field(pre, "msgctxt", m["msgctxt"])
        field(pre, "msgid", m["msgid"])
        if m["msgid_plural"]:
            field(pre, "msgid_plural", m["msgid_plural"])
        if m["msgstr_plural"]:
            for i, t in enumerate(m["msgstr_plural"]):
                field(pre, "msgstr[%d]" % i, t)
        else:
            field(pre, "msgstr", m["msgstr"] or "")
    text = eol.join(out)
    return text if s.one_in(4) else text + eol


VT = "the escapes \\v and \\f are read and written as U+0011 and U+0012, not as vertical tab and form feed"
COLON = "an occurrence whose path has a colon is read with its line number as a part of the path"


def c26(s, ctx):
    how = s.below(4)
    c = gen.catalog(s, 4)
    ww = [78, s.range(20, 120), 1000, 0][s.weighted([4, 4, 1, 1])]
    if how < 2:
        fit(c, ww if how else ww or 1)
    ctx.key(how, c, ww)
    ctx.note("%s, wrap width %d\n%s" % (["written here, read by polib", "written by polib, read here", "free layout, read by both", "free layout, read by both"][how], ww, show(c)))
    ctx.nontrivial(any(m["msgctxt"] or m["msgid_plural"] or m["comment"] or m["tcomment"] or m["flags"] or m["occurrences"] for m in c["entries"]))
    ctx.label(["here to polib", "polib to here", "layout", "layout"][how])
    if how == 0:
        f = rs_file(c, ww)
        text = str(f)
        p, g = po_read(ctx, text)
        want = written(c, "rs")
        same(po_norm(g), want, "polib reads")
        if s.one_in(4):
            f.save(p)
            same(po_norm(polib.pofile(p, encoding="utf-8")), want, "polib reads the saved file")
        one_escape(s, ctx)
        drive(s, ctx)
        return
    if how == 1:
        g = polib.POFile(wrapwidth=ww)
        g.header = c["header"]
        g.metadata = dict(c["metadata"])
        g.metadata_is_fuzzy = c["fuzzy"]
        for m in c["entries"]:
            g.append(po_entry(m))
        text = str(g)
        ctx.note(repr(text))
        want = written(c, "po")
        f = rspolib.pofile(text)
        same(rs_norm(f), want, "read here")
        if s.one_in(4):
            p = os.path.join(ctx.scratch, "y.po")
            g.save(p)
            same(rs_norm(rspolib.pofile(p)), want, "saved by polib, read here")
        return
    text = lay(s, c)
    ctx.note(repr(text))
    want = dict(c, entries=[])
    for m in c["entries"]:
        m = norm(m)
        if m["obsolete"]:
            m["previous_msgid"] = m["previous_msgid_plural"] = m["previous_msgctxt"] = None
        m["comment"] = "\n".join(x for x in m["comment"].split("\n") if x.strip())
        want["entries"].append(m)
    p, g = po_read(ctx, text)
    mine = rspolib.pofile(p) if s.bool() else rspolib.pofile(text)
    same(po_norm(g), want, "polib reads")
    same(rs_norm(mine), want, "read here")
    for i, (a, b) in enumerate(zip(mine, g)):
        ensure(a.linenum == b.linenum, "message %d is at line %d here and %d in polib", i, a.linenum, b.linenum)
        ensure(a.translated() == b.translated(), "translated of message %d is %r here and %r in polib", i, a.translated(), b.translated())
        ensure(a.fuzzy == b.fuzzy, "fuzzy of message %d is %r here and %r in polib", i, a.fuzzy, b.fuzzy)
    views(mine, g)


def views(a, b):
    for v in ("translated_entries", "fuzzy_entries", "obsolete_entries"):
        x, y = [e.linenum for e in getattr(a, v)()], [e.linenum for e in getattr(b, v)()]
        ensure(x == y, "%s at lines %r here and %r in polib", v, x, y)


def drive(s, ctx):
    """An occurrence with a colon in its path."""
    p, n = s.pick(["C:\\src\\a.c", "a:b", "x::y", "a:1"]), str(s.upto(2000))
    e = rspolib.pofile('#: %s:%s\nmsgid "a"\nmsgstr ""\n' % (p, n))[0]
    got = rs_get(e, "occurrences")
    if got == [(p, n)]:
        return
    ensure(got == [(p + ":" + n, "")], "%r line %s is read here as %r", p, n, got)
    ctx.known.add(COLON)


def one_escape(s, ctx):
    """One character, escaped by one library and unescaped by the other."""
    ch = s.pick(list("\x0b\x0cn") + gen.ESCAPED + ["é", "v", "\x07"])
    t = "a" + ch + "b"
    if ch in "\x0b\x0c":
        got = rspolib.unescape(polib.escape(t))
        if got == t:
            return
        ensure(got == "a" + {"\x0b": "\x11", "\x0c": "\x12"}[ch] + "b", "%r is unescaped here as %r", polib.escape(t), got)
        ctx.known.add(VT)
        return
    ensure(rspolib.unescape(polib.escape(t)) == t, "%r is escaped by polib and unescaped here as %r", t, rspolib.unescape(polib.escape(t)))
    ensure(polib.unescape(rspolib.escape(t)) == t, "%r is escaped here and unescaped by polib as %r", t, polib.unescape(rspolib.escape(t)))


# -------------------------------------------------------------------- C27

PLURALS = [
    ("nplurals=1; plural=0;", 1, lambda n: 0),
    ("nplurals=2; plural=(n != 1);", 2, lambda n: int(n != 1)),
    ("nplurals=2; plural=n>1;", 2, lambda n: int(n > 1)),
    ("nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2;", 3, lambda n: 0 if n % 10 == 1 and n % 100 != 11 else 1 if n != 0 else 2),
    (
        "nplurals=4; plural=(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3);",
        4,
        lambda n: 0 if n % 100 == 1 else 1 if n % 100 == 2 else 2 if n % 100 in (3, 4) else 3,
    ),
    ("nplurals=6; plural=n%6;", 6, lambda n: n % 6),
    ("nplurals=12; plural=n%12;", 12, lambda n: n % 12),
    ("nplurals=30; plural=n%30;", 30, lambda n: n % 30),
]
COUNTS = [0, 1, 2, 3, 5, 8, 10, 11, 21, 29, 101, 1000]


def mo_text(s):
    t = s.pick(["a", "b", "ab", "a b", "é", "z", "A"]) if s.upto(2) == 0 else anytext1(s)
    return t.replace("\0", "0").replace("\x04", "4")


def anytext1(s):
    return gen.anytext(s) or "a"


def mo_messages(s, nforms, top, tr):
    seen, out = set(), []
    for _ in range(s.size(top) if s.upto(9) else s.range(0, 40)):
        m = gen.blank()
        m["msgid"] = mo_text(s)
        m["msgctxt"] = gen.opt(s, 1, 3, mo_text)
        if (m["msgid"], m["msgctxt"]) in seen:
            continue
        seen.add((m["msgid"], m["msgctxt"]))
        word = lambda: (anytext1(s) if tr or s.upto(5) else "")
        if s.one_in(3):
            m["msgid_plural"] = anytext1(s)
            m["msgstr_plural"] = [word() for _ in range(nforms)]
        else:
            m["msgstr"] = word()
        if not tr:
            m["obsolete"] = s.one_in(6)
            m["flags"] = ["fuzzy"] if s.one_in(6) else ["c-format"] if s.one_in(4) else []
        out.append(m)
    if s.one_in(1500):
        out += [dict(gen.blank(), msgid="m\x7f%d" % i, msgstr="t%d" % i) for i in range(min(gen.big(s), 4100))]
    return out


def lookups(t, es, plural, who):
    for m in es:
        i, c, p = m["msgid"], m["msgctxt"], m["msgid_plural"]
        on = translated(m)
        if p is None:
            got = t.gettext(i) if c is None else t.pgettext(c, i)
            want = m["msgstr"] if on else i
            ensure(got == want, "%s: lookup of %r in context %r gives %r, expected %r", who, i, c, got, want)
            continue
        for n in COUNTS:
            got = t.ngettext(i, p, n) if c is None else t.npgettext(c, i, p, n)
            want = m["msgstr_plural"][plural(n)] if on else (i if n == 1 else p)
            ensure(got == want, "%s: lookup of %r / %r for %d in context %r gives %r, expected %r", who, i, p, n, c, got, want)


def mo_norm(m):
    m = {k: m[k] for k in MOFIELDS}
    m["msgstr"] = "" if m["msgid_plural"] is not None else m["msgstr"] or ""
    m["msgid_plural"] = m["msgid_plural"] or ""
    return m


def mo_same(got, want, who):
    key = lambda m: (m["msgctxt"] + "\x04" if m["msgctxt"] is not None else "") + m["msgid"]
    got, want = sorted(got, key=key), sorted(want, key=key)
    for g, w in zip(got, want):
        ensure(g == w, "%s: %r, expected %r", who, g, w)
    ensure(len(got) == len(want), "%s: %d messages, expected %d", who, len(got), len(want))


def rs_mo_model(e):
    return {f: rs_get(e, f) for f in MOFIELDS}


def rs_mo_entry(m):
    return rspolib.MOEntry(msgid=m["msgid"], msgstr=m["msgstr"], msgid_plural=m["msgid_plural"], msgstr_plural=m["msgstr_plural"], msgctxt=m["msgctxt"])


def c27(s, ctx):
    rule, nforms, plural = PLURALS[s.below(len(PLURALS))]
    meta = gen.metadata(s)
    meta["Content-Type"] = "text/plain; charset=UTF-8"
    meta["Plural-Forms"] = rule
    how = s.below(3)
    es = mo_messages(s, nforms, 6, how == 1)
    if how == 2:
        for m in es:
            m["msgctxt"] = m["msgctxt"] or None
        es = list({(m["msgid"], m["msgctxt"]): m for m in es}.values())
    ctx.key(how, meta, es)
    ctx.note("%s, metadata %r\n  %s" % (["from PO", "from MO", "polib writes"][how], meta, "\n  ".join(map(short, es))))
    ctx.nontrivial(any(translated(m) and (m["msgctxt"] is not None or m["msgid_plural"]) for m in es))
    ctx.label(["from PO", "from MO", "polib writes"][how])
    p = os.path.join(ctx.scratch, "x.mo")
    on = [mo_norm(m) for m in es if translated(m)]
    if how == 2:
        g = polib.POFile()
        g.metadata = dict(meta)
        for m in es:
            g.append(po_entry(m))
        g.save_as_mofile(p)
        f = rspolib.mofile(p)
        ensure(dict(f.get_metadata()) == meta, "metadata is %r, expected %r", dict(f.get_metadata()), meta)
        mo_same([mo_norm(rs_mo_model(e)) for e in f], on, "polib's file read here")
        lookups(gettext.GNUTranslations(io.BytesIO(bytes(f.as_bytes()))), es, plural, "rewritten")
        return
    if how == 0:
        f = rspolib.POFile()
        f.metadata = meta
        f.entries = [rs_entry(m) for m in es]
    else:
        f = rspolib.MOFile()
        f.metadata = meta
        f.entries = [rs_mo_entry(m) for m in es]
    f.save_as_mofile(p)
    with open(p, "rb") as fp:
        t = gettext.GNUTranslations(fp)
    lookups(t, es, plural, "gettext on the saved file")
    ensure(t.charset() == "UTF-8", "charset is %r", t.charset())
    info = {k.lower(): v for k, v in meta.items()}
    got = {k: v for k, v in t.info().items() if k in info}
    ensure(got == info, "gettext reads the metadata as %r, expected %r", got, info)
    g = polib.mofile(p, encoding="utf-8")
    ensure(g.metadata == meta, "polib reads the metadata as %r, expected %r", g.metadata, meta)
    pm = []
    for e in g:
        m = {k: getattr(e, k) for k in MOFIELDS}
        m["msgstr_plural"] = [m["msgstr_plural"][k] for k in sorted(m["msgstr_plural"] or {})]
        m["msgstr"] = m["msgstr"] or ""
        pm.append(m)
    mo_same(pm, on, "polib on the saved file")
    v = s.pick([0, 1])
    for name, b in (("little endian", f.as_bytes_le()), ("big endian", f.as_bytes_be()), ("revision %d" % v, f.as_bytes_with(s.pick([rspolib.MOFile.MAGIC, rspolib.MOFile.MAGIC_SWAPPED]), v))):
        lookups(gettext.GNUTranslations(io.BytesIO(bytes(b))), es, plural, name)


# -------------------------------------------------------------------- C28

def sign(x):
    return (x > 0) - (x < 0)


def cmp(a, b):
    return (a > b) - (a < b)


def ocmp(a, b):
    """None if only one is there."""
    if (a is None) != (b is None):
        return None
    return 0 if a is None else cmp(a, b)


def reference(a, b, on):
    """-1, 0, 1, or None if they differ in a field that only one has."""
    for f in ("obsolete", "occurrences", "flags", "msgctxt", "msgid_plural", "msgstr_plural", "msgid", "msgstr"):
        if f not in on:
            continue
        if f == "obsolete":
            r = cmp(b[f], a[f])
        elif f in LISTS:
            r = cmp(sorted(a[f]), sorted(b[f]))
        elif f == "msgid":
            r = cmp(a[f], b[f])
        else:
            r = ocmp(a[f], b[f])
        if r != 0:
            return r
    return 0


def compare(ctx, a, b, x, y, s, fields):
    r = reference(a, b, fields)
    vals = {"__eq__": x == y, "__ne__": x != y, "__lt__": x < y, "__le__": x <= y, "__gt__": x > y, "__ge__": x >= y}
    c = x.__cmp__(y)
    ok = [r] if r is not None else [-1, 1]
    ensure(c in ok, "comparing %s with %s gives %r, expected %r", short(a), short(b), c, ok)
    want = {"__eq__": c == 0, "__ne__": c != 0, "__lt__": c < 0, "__le__": c <= 0, "__gt__": c > 0, "__ge__": c >= 0}
    ensure(vals == want, "comparing %s with %s (%r): %r", short(a), short(b), c, vals)
    ensure(y.__cmp__(x) == -c, "comparing backwards gives %r, expected %r", y.__cmp__(x), -c)
    on = [f for f in fields if s.bool()]
    kw = {f: f in on for f in fields}
    if s.one_in(3):
        kw = {f: v for f, v in kw.items() if not v}
    c = x.cmp_by(y, **kw)
    r = reference(a, b, on)
    ok = [r] if r is not None else [-1, 1]
    ensure(c in ok, "comparing %s with %s by %r gives %r, expected %r", short(a), short(b), on, c, ok)


CMP = ["msgid", "msgstr", "msgctxt", "obsolete", "msgid_plural", "msgstr_plural", "occurrences", "flags"]
MOCMP = ["msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr_plural"]
BY = ["msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt"]
WIDTHS = [78, 20, 30, 77, 79, 200, 0, 1, 65536, (1 << 32) + 78]


def some(s, model):
    """A message: one of the catalog's, perhaps changed, or a new one."""
    if model and s.upto(2):
        m = dict(s.pick(model))
        if s.one_in(4):
            f = s.pick(LISTS)
            m[f] = m[f][::-1]
        elif s.one_in(3):
            f = s.pick(FIELDS)
            m[f] = gen.nudge(s, f, m[f]) if s.bool() else gen.tiny_value(s, f)
        return m
    m = gen.tiny_message(s)
    if s.one_in(4):
        m["linenum"] = s.pick([1, 2, 99])
    return m


def models(es):
    return [rs_model(e) for e in es]


def agree(got, want, log, what):
    if got == want:
        return
    d = "the lists have %d and %d messages" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            d = "message %d is %s, expected %s" % (i, short(g), short(w))
            break
    raise Fail("after\n  %s\n%s: %s" % ("\n  ".join(log), what, d))


def long_list(s, ms):
    """The list, seldom many times over with ids of their own."""
    if not ms or not s.one_in(120):
        return ms
    return [dict(ms[i % len(ms)], msgid="%s%d" % (ms[i % len(ms)]["msgid"], i)) for i in range(s.pick([128, 256, 257, 300]))]


def long_text(s, v):
    """The value, seldom many times over if it is text."""
    if not isinstance(v, str) or not s.one_in(200):
        return v
    return (v + " ") * (s.pick([300, 1100, 1100, 5000, 5000, 70000]) // (len(v) + 1))


def clipped(v):
    v = repr(v)
    return v if len(v) < 400 else v[:300] + "... (%d)" % len(v)


def entry_ops(s, ctx, log):
    """One message object on its own."""
    m = gen.blank()
    kw = {}
    for f in ("msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt", "tcomment", "comment", "flags"):
        if s.bool():
            kw[f] = m[f] = gen.wild_value(s, f)
    order = ["msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt", "tcomment", "comment", "flags"]
    if s.one_in(3):
        n = s.below(9)
        for f in order[:n]:
            if f not in kw:
                kw[f] = m[f] = gen.wild_value(s, f)
        e = rspolib.POEntry(*[kw.pop(f) for f in order[:n]], **kw)
    else:
        e = rspolib.POEntry(**kw)
    log.append("new message %s" % short(m))
    ensure(rs_model(e) == m, "a new message is %s, expected %s", short(rs_model(e)), short(m))
    for _ in range(s.range(1, 6)):
        if s.one_in(8):
            o = some(s, [])
            e.merge(rs_entry(o))
            m = dict(o)
            log.append("merge %s" % short(o))
        else:
            f = s.pick(FIELDS + ["linenum"])
            v = long_text(s, gen.wild_value(s, f))
            setattr(e, f, v)
            m[f] = v
            log.append("set %s to %s" % (f, clipped(v)))
        agree([rs_model(e)], [m], log, "the message")
        ensure(e.fuzzy == gen.fuzzy(m), "fuzzy is %r after\n  %s", e.fuzzy, "\n  ".join(log))
        if not (m["msgstr_plural"] and m["msgstr"] is not None):
            ensure(e.translated() == translated(m), "translated is %r after\n  %s", e.translated(), "\n  ".join(log))
        k = m["msgid"] if m["msgctxt"] is None else m["msgctxt"] + "\x04" + m["msgid"]
        ensure(e.msgid_eot_msgctxt() == k, "key is %r, expected %r", e.msgid_eot_msgctxt(), k)
        ensure(str(e) == e.to_string_with_wrapwidth(78) == str(rs_entry(m)), "text is %r after\n  %s", str(e), "\n  ".join(log))
        w = s.pick(WIDTHS)
        ensure(e.to_string_with_wrapwidth(w) == rs_entry(m).to_string_with_wrapwidth(w), "text at width %d", w)
        g = rspolib.POFile(wrapwidth=w)
        g.append(e)
        ensure(str(g).rstrip("\n").endswith("\n" + e.to_string_with_wrapwidth(w).rstrip("\n")), "text at width %d is %r, in a catalog %r", w, e.to_string_with_wrapwidth(w), str(g))
    # what a getter returns is a copy
    for f in LISTS:
        rs_get(e, f).append(("x", "1") if f == "occurrences" else "x")
        getattr(e, "get_" + f)().append(("x", "1") if f == "occurrences" else "x")
    agree([rs_model(e)], [m], log, "the message")


def c28(s, ctx):
    log = []
    if s.one_in(4):
        entry_ops(s, ctx, log)
        ctx.key(log)
        ctx.note("\n".join(log))
        ctx.nontrivial(len(log) > 3)
        ctx.label("message")
        return
    ww = s.pick(WIDTHS)
    meta, header, fuz, model = {}, "", False, []
    start = s.below(3)
    if start == 0:
        f = rspolib.POFile()
        ww = 78
    elif start == 1:
        f = rspolib.POFile(wrapwidth=ww)
    else:
        f = rspolib.POFile("", ww)
    log.append("new catalog, wrap width %d" % ww)
    source = ""

    def state():
        return {"header": header, "metadata": meta, "fuzzy": fuz, "entries": model}

    hits = 0
    for _ in range(s.range(2, 16)):
        op = s.weighted([8, 2, 3, 3, 3, 3, 2, 3, 2, 4, 3, 2, 2, 2, 2, 2, 1, 2])
        if op == 0:
            m = some(s, model)
            log.append("append %s" % short(m))
            e = rs_entry(m)
            f.append(e)
            model.append(dict(m))
            if s.one_in(3):
                e.msgid = "other"  # the catalog has its own copy
                e.flags = ["changed"]
        elif op == 1:
            model = long_list(s, [some(s, model) for _ in range(s.below(4))])
            log.append("entries = [%s]" % "; ".join(map(short, model)))
            f.entries = [rs_entry(m) for m in model]
        elif op == 2:
            m = some(s, model)
            log.append("remove %s" % short(m))
            f.remove(rs_entry(m))
            n = len(model)
            model = [x for x in model if x != m]
            hits += n > len(model)
        elif op == 3:
            i = s.pick(model)["msgid"] if model and s.bool() else gen.tiny(s)
            log.append("remove by id %r" % i)
            f.remove_by_msgid(i)
            for k, x in enumerate(model):
                if x["msgid"] == i:
                    del model[k]
                    hits += 1
                    break
        elif op == 4:
            x = s.pick(model) if model and s.upto(2) else None
            i, c = (x["msgid"], x["msgctxt"] or "") if x else (gen.tiny(s), gen.tiny(s))
            log.append("remove by id %r and context %r" % (i, c))
            f.remove_by_msgid_msgctxt(i, c)
            for k, x in enumerate(model):
                if x["msgid"] == i and (x["msgctxt"] or "") == c:
                    del model[k]
                    hits += 1
                    break
        elif op == 5:
            by = s.pick(BY)
            x = s.pick(model) if model and s.upto(2) else None
            v = (x[by] or "") if x else gen.tiny(s)
            kw = {}
            if by != "msgid" or s.bool():
                kw["by"] = by
            obs = s.bool()
            if obs or s.bool():
                kw["include_obsolete_entries"] = obs
            c = gen.opt(s, 1, 2, gen.tiny)
            if c is not None or s.bool():
                kw["msgctxt"] = c
            log.append("find %r %r" % (v, kw))
            got = models(f.find(v, **kw))
            want = [x for x in model if (x[by] or "") == v and (obs or not x["obsolete"]) and (c is None or (x["msgctxt"] or "") == c)]
            agree(got, want, log, "found")
            hits += bool(want)
        elif op == 6:
            x = s.pick(model) if model and s.upto(2) else None
            i, c = (x["msgid"], x["msgctxt"] or "") if x else (gen.tiny(s), gen.tiny(s))
            log.append("find by id %r, and context %r" % (i, c))
            e = f.find_by_msgid(i)
            agree([] if e is None else [rs_model(e)], [x for x in model if x["msgid"] == i][:1], log, "by id")
            e = f.find_by_msgid_msgctxt(i, c)
            agree([] if e is None else [rs_model(e)], [x for x in model if x["msgid"] == i and (x["msgctxt"] or "") == c][:1], log, "by id and context")
        elif op == 7:
            m = some(s, model)
            log.append("%s in catalog" % short(m))
            got = rs_entry(m) in f
            c = m["msgctxt"]
            exact = any(x["msgid"] == m["msgid"] and (x["msgctxt"] or "") == (c or "") for x in model)
            loose = any(x["msgid"] == m["msgid"] for x in model)
            if exact:
                ensure(got is True, "not found, after\n  %s", "\n  ".join(log))
            elif c is not None or not loose:
                ensure(got is False, "found, after\n  %s", "\n  ".join(log))
        elif op == 8:
            i = s.upto(len(model) + 2)
            log.append("index %d" % i)
            try:
                got = [rs_model(f[i])]
            except IndexError:
                got = []
            agree(got, model[i:i + 1], log, "indexed")
            hits += bool(got)
        elif op == 9:
            # change a message of the catalog through a copy
            if not model:
                continue
            i = s.below(len(model))
            fl = s.pick(FIELDS + ["linenum"])
            v = gen.nudge(s, fl, model[i][fl]) if s.one_in(4) else gen.tiny_value(s, fl)
            es = f.get_entries()
            setattr(es[i], fl, v)
            agree(models(f), model, log, "after changing a copy")
            f.entries = es
            model[i] = dict(model[i], **{fl: v})
            log.append("set %s of %d to %r" % (fl, i, v))
            hits += 1
        elif op == 10:
            log.append("views")
            one = all(not (m["msgstr_plural"] and m["msgstr"] is not None) for m in model)
            tr = [m for m in model if translated(m)]
            if one:
                agree(models(f.translated_entries()), tr, log, "translated")
                agree(models(f.untranslated_entries()), [m for m in model if not translated(m)], log, "untranslated")
                p = 100.0 * len(tr) / len(model) if model else 0.0
                ensure(abs(f.percent_translated() - p) < 2e-5, "%r percent, expected %r", f.percent_translated(), p)
            agree(models(f.obsolete_entries()), [m for m in model if m["obsolete"]], log, "obsolete")
            agree(models(f.fuzzy_entries()), [m for m in model if gen.fuzzy(m) and not m["obsolete"]], log, "fuzzy")
            hits += len(model) > 1
        elif op == 11:
            k = s.below(4)
            if k == 0:
                meta = gen.metadata(s, True)
                f.metadata = meta
            elif k == 1:
                d = gen.metadata(s, True)
                meta = dict(meta, **d)
                f.update_metadata(d)
            elif k == 2:
                x = s.pick(sorted(meta) or ["no"])
                x = s.pick([x.swapcase(), x.lower(), x + " ", x[:-1], "no", ""]) if s.one_in(3) else x
                meta = {a: b for a, b in meta.items() if a != x}
                f.remove_metadata_field(x)
            else:
                f.get_metadata()["X-Other"] = "1"
            log.append("metadata is %r" % meta)
        elif op == 12:
            header = gen.header(s)
            f.header = header
            log.append("header = %r" % header)
        elif op == 13:
            fuz = s.bool()
            f.metadata_is_fuzzy = fuz
            log.append("metadata_is_fuzzy = %r" % fuz)
        elif op == 14:
            ww = s.pick(WIDTHS)
            f.wrapwidth = ww
            log.append("wrapwidth = %d" % ww)
        elif op == 15:
            # an equal catalog, or one that differs
            st = {"header": header, "metadata": meta, "fuzzy": fuz, "entries": [dict(m) for m in model]}
            how = s.below(7) * s.below(2)
            es = st["entries"]
            if how == 1:
                es.append(dict(gen.blank(), msgid="one more", msgstr="x"))
            elif how == 2 and es:
                es.pop(s.below(len(es)))
            elif how == 3:
                st["header"] += "x"
            elif how == 4:
                st["metadata"] = dict(meta, Other="x")
            elif how == 5:
                st["fuzzy"] = not fuz
            elif how == 6 and es:
                k = s.pick(["msgid", "msgctxt", "msgstr", "comment", "tcomment", "obsolete"])
                m = s.pick(es)
                if k == "msgstr":
                    k = "msgid_plural"
                m[k] = not m[k] if k == "obsolete" else (m[k] or "") + "x"
            diff = st != state()
            g = rs_file(st, ww)
            log.append("compare with %s" % ("another catalog %d" % how if diff else "an equal catalog"))
            ensure((f == g) is (not diff) and (f != g) is diff, "equal %r, different %r, after\n  %s", f == g, f != g, "\n  ".join(log))
            g.wrapwidth = s.pick(WIDTHS)
            ensure((f == g) is not (f != g), "equal and different, or neither, after\n  %s", "\n  ".join(log))
        elif op == 16:
            # the text is that of a catalog made afresh
            log.append("text and bytes")
            g = rs_file(state(), ww)
            ensure(str(f) == str(g), "text is %r, expected %r, after\n  %s", str(f), str(g), "\n  ".join(log))
            ensure(bytes(f.as_bytes()) == bytes(g.as_bytes()) == bytes(f.as_bytes_le()), "bytes differ")
            ensure(bytes(f.as_bytes_be())[:4] == struct.pack(">I", 0x950412DE), "big endian bytes begin with %r", bytes(f.as_bytes_be())[:4])
            v = s.pick([1, 0, 2, 7, 256, 65536, (1 << 32) - 1])
            for o, h, b in (("<", 0x950412DE, f.as_bytes_le()), (">", 0xDE120495, f.as_bytes_be())):
                ensure(bytes(f.as_bytes_with(h, v)) == bytes(b)[:4] + struct.pack(o + "I", v) + bytes(b)[8:], "bytes of revision %d in order %s", v, o)
            e = f.metadata_as_entry()
            ensure(e.msgid == "" and e.fuzzy == fuz, "metadata as a message: %s", short(rs_model(e)))
            ensure(dict(rs_model(e), msgstr=None, flags=[]) == gen.blank() and rs_get(e, "flags") in ([], ["fuzzy"]), "metadata as a message: %s", short(rs_model(e)))
            lines = [tuple(x.split(": ", 1)) for x in (e.msgstr or "").split("\n") if x]
            ensure(dict(lines) == meta and len(lines) == len(meta), "metadata as a message: %r", e.msgstr)
        else:
            if any(not m["msgid"] and m["msgctxt"] is None for m in model):
                continue  # it would be read as the metadata
            p = os.path.join(ctx.scratch, "c28.po")
            how = s.below(3)
            log.append("reload by %s" % ["text", "file", "file, as PO"][how])
            src = str(f) if how == 0 else p
            if how == 0:
                g = rspolib.pofile(src, ww)
            else:
                (f.save if how == 1 else f.save_as_pofile)(p)
                with io.open(p, encoding="utf-8", newline="") as fp:
                    ensure(fp.read() == str(f), "another text was saved")
                g = rspolib.pofile(p, wrapwidth=ww) if s.bool() else rspolib.POFile(p, ww)
            fit_model = {"header": header, "metadata": meta, "fuzzy": fuz, "entries": [dict(m) for m in model]}
            fit(fit_model, ww)
            if any(a != b for a, b in zip(fit_model["entries"], model)):
                continue
            want = []
            for m in [m for m in model if not m["obsolete"]] + [m for m in model if m["obsolete"]]:
                m = dict(m)
                m["msgstr"] = None if m["msgstr_plural"] else m["msgstr"] or ""
                if m["obsolete"]:
                    m.update(occurrences=[], previous_msgid=None, previous_msgid_plural=None, previous_msgctxt=None)
                want.append(m)
            for m, e in zip(want, g):
                m["linenum"] = e.linenum  # not part of the content
            f, model, source = g, want, src
            ensure(f.wrapwidth == ww, "wrap width %r, expected %r", f.wrapwidth, ww)
        agree(models(f), model, log, "the catalog")
        agree(models(f.get_entries()), model, log, "the catalog's list")
        ensure(len(f) == len(model), "length %d, expected %d", len(f), len(model))
        if model:
            agree([rs_model(f[len(model) - 1])], [model[-1]], log, "the last message by index")
        ensure(dict(f.get_metadata()) == meta, "metadata is %r after\n  %s", dict(f.get_metadata()), "\n  ".join(log))
        ensure(f.path_or_content == source and f.bytes_content is None, "it says it was read from %r %r, not %r", f.path_or_content, f.bytes_content, source)
        ensure(f.header == header, "header is %r after\n  %s", f.header, "\n  ".join(log))
        ensure(f.metadata_is_fuzzy is fuz, "metadata_is_fuzzy is %r after\n  %s", f.metadata_is_fuzzy, "\n  ".join(log))
        ensure(f.wrapwidth == ww, "wrapwidth is %r after\n  %s", f.wrapwidth, "\n  ".join(log))
    if len(model) >= 2:
        a, b = s.pick(model), s.pick(model)
        compare(ctx, a, b, rs_entry(a), rs_entry(b), s, CMP)
    a = some(s, model)
    b = some(s, [a])
    compare(ctx, a, b, rs_entry(a), rs_entry(b), s, CMP)
    ctx.key(log)
    ctx.note("\n".join(log))
    ctx.nontrivial(hits > 0)
    ctx.label("catalog")


# -------------------------------------------------------------------- C29

def some_mo(s, model):
    m = some(s, [])
    m = {k: m[k] for k in MOFIELDS}
    if model and s.upto(2):
        m = dict(s.pick(model))
        if s.one_in(4):
            m["msgstr_plural"] = m["msgstr_plural"][::-1]
        elif s.one_in(3):
            f = s.pick(MOFIELDS)
            m[f] = gen.nudge(s, f, m[f]) if s.bool() else gen.tiny_value(s, f)
    return m


def mo_models(es):
    return [rs_mo_model(e) for e in es]


def mo_key(m):
    return m["msgid"] if m["msgctxt"] is None else m["msgctxt"] + "\x04" + m["msgid"]


def mo_entry_ops(s, ctx, log):
    m = {k: v for k, v in gen.blank().items() if k in MOFIELDS}
    kw = {}
    order = ["msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt"]
    for f in order:
        if s.bool():
            kw[f] = m[f] = gen.wild_value(s, f)
    if s.one_in(3):
        n = s.below(6)
        for f in order[:n]:
            if f not in kw:
                kw[f] = m[f] = gen.wild_value(s, f)
        e = rspolib.MOEntry(*[kw.pop(f) for f in order[:n]], **kw)
    else:
        e = rspolib.MOEntry(**kw)
    log.append("new message %s" % short(m))
    agree([rs_mo_model(e)], [m], log, "the message")
    for _ in range(s.range(1, 6)):
        if s.one_in(8):
            o = some_mo(s, [])
            e.merge(rs_mo_entry(o))
            m = dict(o)
            log.append("merge %s" % short(o))
        else:
            f = s.pick(MOFIELDS)
            v = long_text(s, gen.wild_value(s, f))
            setattr(e, f, v)
            m[f] = v
            log.append("set %s to %s" % (f, clipped(v)))
        agree([rs_mo_model(e)], [m], log, "the message")
        ensure(e.msgid_eot_msgctxt() == mo_key(m), "key is %r, expected %r", e.msgid_eot_msgctxt(), mo_key(m))
        ps = m["msgstr_plural"]
        want = m["msgstr"] != "" if m["msgstr"] is not None and not ps else None
        if m["msgstr"] is None:
            want = False if not any(ps) else True if all(ps) else None
        if want is not None:
            ensure(e.translated() is want, "translated is %r after\n  %s", e.translated(), "\n  ".join(log))
        ensure(str(e) == e.to_string_with_wrapwidth(78) == str(rs_mo_entry(m)), "text is %r after\n  %s", str(e), "\n  ".join(log))
        if ps == [] or m["msgstr"] is None:
            po = rs_entry(dict(gen.blank(), **m))
            w = s.pick(WIDTHS)
            ensure(e.to_string_with_wrapwidth(w) == po.to_string_with_wrapwidth(w), "text at width %d is %r, as a PO message %r", w, e.to_string_with_wrapwidth(w), po.to_string_with_wrapwidth(w))
            g = rspolib.MOFile(wrapwidth=w)
            g.append(e)
            ensure(str(g).rstrip("\n").endswith("\n" + e.to_string_with_wrapwidth(w).rstrip("\n")), "text at width %d is %r, in a catalog %r", w, e.to_string_with_wrapwidth(w), str(g))
    rs_get(e, "msgstr_plural").append("x")
    e.get_msgstr_plural().append("x")
    agree([rs_mo_model(e)], [m], log, "the message")


def rs_mo_file(meta, model, ww):
    f = rspolib.MOFile(wrapwidth=ww)
    f.metadata = meta
    f.entries = [rs_mo_entry(m) for m in model]
    return f


def c29(s, ctx):
    log = []
    if s.one_in(4):
        mo_entry_ops(s, ctx, log)
        ctx.key(log)
        ctx.note("\n".join(log))
        ctx.nontrivial(len(log) > 3)
        ctx.label("message")
        return
    ww = s.pick(WIDTHS)
    meta, model = {}, []
    start = s.below(3)
    if start == 0:
        f = rspolib.MOFile()
        ww = 78
    elif start == 1:
        f = rspolib.MOFile(wrapwidth=ww)
    else:
        f = rspolib.MOFile("", ww)
    log.append("new catalog, wrap width %d" % ww)
    magic, version, source = 0x950412DE, 0, ""
    ensure(rspolib.MOFile.MAGIC == 0x950412DE and rspolib.MOFile.MAGIC_SWAPPED == 0xDE120495, "magic numbers")
    hits = 0
    for _ in range(s.range(2, 16)):
        op = s.weighted([8, 2, 3, 3, 3, 3, 2, 3, 2, 4, 2, 2, 2, 2, 3])
        if op == 0:
            m = some_mo(s, model)
            log.append("append %s" % short(m))
            e = rs_mo_entry(m)
            f.append(e)
            model.append(dict(m))
            if s.one_in(3):
                e.msgid = "other"
        elif op == 1:
            model = long_list(s, [some_mo(s, model) for _ in range(s.below(4))])
            log.append("entries = [%s]" % "; ".join(map(short, model)))
            f.entries = [rs_mo_entry(m) for m in model]
        elif op == 2:
            m = some_mo(s, model)
            log.append("remove %s" % short(m))
            f.remove(rs_mo_entry(m))
            n = len(model)
            model = [x for x in model if x != m]
            hits += n > len(model)
        elif op == 3:
            i = s.pick(model)["msgid"] if model and s.bool() else gen.tiny(s)
            log.append("remove by id %r" % i)
            f.remove_by_msgid(i)
            for k, x in enumerate(model):
                if x["msgid"] == i:
                    del model[k]
                    hits += 1
                    break
        elif op == 4:
            x = s.pick(model) if model and s.upto(2) else None
            i, c = (x["msgid"], x["msgctxt"] or "") if x else (gen.tiny(s), gen.tiny(s))
            log.append("remove by id %r and context %r" % (i, c))
            f.remove_by_msgid_msgctxt(i, c)
            for k, x in enumerate(model):
                if x["msgid"] == i and (x["msgctxt"] or "") == c:
                    del model[k]
                    hits += 1
                    break
        elif op == 5:
            by = s.pick(BY[:4])
            x = s.pick(model) if model and s.upto(2) else None
            v = (x[by] or "") if x else gen.tiny(s)
            kw = {}
            if by != "msgid" or s.bool():
                kw["by"] = by
            c = gen.opt(s, 1, 2, gen.tiny)
            if c is not None or s.bool():
                kw["msgctxt"] = c
            log.append("find %r %r" % (v, kw))
            want = [x for x in model if (x[by] or "") == v and (c is None or (x["msgctxt"] or "") == c)]
            agree(mo_models(f.find(v, **kw)), want, log, "found")
            hits += bool(want)
        elif op == 6:
            x = s.pick(model) if model and s.upto(2) else None
            i, c = (x["msgid"], x["msgctxt"] or "") if x else (gen.tiny(s), gen.tiny(s))
            log.append("find by id %r, and context %r" % (i, c))
            e = f.find_by_msgid(i)
            agree([] if e is None else [rs_mo_model(e)], [x for x in model if x["msgid"] == i][:1], log, "by id")
            if c:
                e = f.find_by_msgid_msgctxt(i, c)
                agree([] if e is None else [rs_mo_model(e)], [x for x in model if x["msgid"] == i and x["msgctxt"] == c][:1], log, "by id and context")
        elif op == 7:
            m = some_mo(s, model)
            log.append("%s in catalog" % short(m))
            got = rs_mo_entry(m) in f
            c = m["msgctxt"]
            exact = any(x["msgid"] == m["msgid"] and x["msgctxt"] == c for x in model)
            loose = any(x["msgid"] == m["msgid"] and (c is None or not x["msgctxt"]) for x in model)
            if exact:
                ensure(got is True, "not found, after\n  %s", "\n  ".join(log))
            elif c or not loose:
                ensure(got is False, "found, after\n  %s", "\n  ".join(log))
        elif op == 8:
            i = s.upto(len(model) + 2)
            log.append("index %d" % i)
            try:
                got = [rs_mo_model(f[i])]
            except IndexError:
                got = []
            agree(got, model[i:i + 1], log, "indexed")
            hits += bool(got)
        elif op == 9:
            if not model:
                continue
            i = s.below(len(model))
            fl = s.pick(MOFIELDS)
            v = gen.nudge(s, fl, model[i][fl]) if s.one_in(4) else gen.tiny_value(s, fl)
            es = f.get_entries()
            setattr(es[i], fl, v)
            agree(mo_models(f), model, log, "after changing a copy")
            f.entries = es
            model[i] = dict(model[i], **{fl: v})
            log.append("set %s of %d to %r" % (fl, i, v))
            hits += 1
        elif op == 10:
            k = s.below(4)
            if k == 0:
                meta = gen.metadata(s, True)
                f.metadata = meta
            elif k == 1:
                d = gen.metadata(s, True)
                meta = dict(meta, **d)
                f.update_metadata(d)
            elif k == 2:
                x = s.pick(sorted(meta) or ["no"])
                x = s.pick([x.swapcase(), x.lower(), x + " ", x[:-1], "no", ""]) if s.one_in(3) else x
                meta = {a: b for a, b in meta.items() if a != x}
                f.remove_metadata_field(x)
            else:
                f.get_metadata()["X-Other"] = "1"
            log.append("metadata is %r" % meta)
        elif op == 11:
            ww = s.pick(WIDTHS)
            f.wrapwidth = ww
            log.append("wrapwidth = %d" % ww)
        elif op == 12:
            how = s.below(5) * s.below(2)
            es, mt = [dict(m) for m in model], dict(meta)
            if how == 1:
                es.append(dict(m_blank(), msgid="one more", msgstr="x"))
            elif how == 2 and es:
                es.pop(s.below(len(es)))
            elif how == 3:
                mt["Other"] = "x"
            elif how == 4 and es:
                m, k = s.pick(es), s.pick(["msgid", "msgctxt", "msgid_plural"])
                m[k] = (m[k] or "") + "x"
            diff = es != model or mt != meta
            g = rs_mo_file(mt, es, ww)
            log.append("compare with %s" % ("another catalog %d" % how if diff else "an equal catalog"))
            ensure((f == g) is (not diff) and (f != g) is diff, "equal %r, different %r, after\n  %s", f == g, f != g, "\n  ".join(log))
            g.wrapwidth = s.pick(WIDTHS)
            ensure((f == g) is not (f != g), "equal and different, or neither, after\n  %s", "\n  ".join(log))
        elif op == 13:
            log.append("text and bytes")
            g = rs_mo_file(meta, model, ww)
            ensure(str(f) == str(g), "text is %r, expected %r, after\n  %s", str(f), str(g), "\n  ".join(log))
            le, be = bytes(f.as_bytes_le()), bytes(f.as_bytes_be())
            if distinct(model):
                ensure(le == bytes(g.as_bytes_le()) and be == bytes(g.as_bytes_be()), "bytes differ")
                ensure(bytes(f.as_bytes_with(0xDE120495, 0)) == be and bytes(f.as_bytes_with(0x950412DE, 0)) == le == bytes(f.as_bytes()), "bytes differ from the byte order's")
            n = len(model) + 1
            for o, b in (("<", le), (">", be)):
                h = struct.unpack(o + "5I", b[:20])
                ensure(h == (0x950412DE, 0, n, 28, 28 + 8 * n), "%s: header is %r", o, h)
            v = s.pick([1, 0, 2, 7, 256, 65536, (1 << 32) - 1])
            for o, g in (("<", 0x950412DE), (">", 0xDE120495)):
                ensure(struct.unpack(o + "2I", bytes(f.as_bytes_with(g, v))[:8]) == (0x950412DE, v), "%s: revision %d is not written", o, v)
            e = f.metadata_as_entry()
            lines = [tuple(x.split(": ", 1)) for x in (e.msgstr or "").split("\n") if x]
            ensure(e.msgid == "" and dict(lines) == meta and len(lines) == len(meta), "metadata as a message: %r", e.msgstr)
        else:
            if not distinct(model) or any(not mo_key(m) or (m["msgid_plural"] is None) != (not m["msgstr_plural"]) or "\\x00" in repr(m) or "\x04" in m["msgid"] or "\x04" in (m["msgctxt"] or "") for m in model):
                continue
            p = os.path.join(ctx.scratch, "c29.mo")
            how = s.below(4)
            log.append("reload %d" % how)
            if how < 2:
                (f.save, f.save_as_mofile)[how](p)
                with open(p, "rb") as fp:
                    ensure(fp.read() == bytes(f.as_bytes()), "other bytes were saved")
                magic, version = 0x950412DE, 0
            else:
                big, version = s.bool(), s.pick([0, 1])
                magic = 0xDE120495 if big else 0x950412DE
                with open(p, "wb") as fp:
                    fp.write(bytes(f.as_bytes_with(magic, version)))
            g = rspolib.mofile(p, wrapwidth=ww) if s.bool() else rspolib.MOFile(p, ww)
            ensure(g.version == version, "version %r, expected %r", g.version, version)
            ensure(g.magic_number == magic, "magic number %r, expected %r", g.magic_number, magic)
            want = sorted((dict(m) for m in model), key=lambda m: mo_key(m).encode())
            for m, e in zip(want, g):
                m["msgstr"] = rs_mo_model(e)["msgstr"] if m["msgid_plural"] is not None else m["msgstr"] or ""
            agree(mo_models(g), want, log, "the saved file")
            ensure(dict(g.get_metadata()) == meta, "metadata is %r, expected %r", dict(g.get_metadata()), meta)
            q = os.path.join(ctx.scratch, "c29.po")
            g.save_as_pofile(q)
            with io.open(q, encoding="utf-8", newline="") as fp:
                ensure(fp.read() == str(g), "another text was saved")
            h = rspolib.pofile(q)
            agree([mo_norm(rs_model(e)) for e in h], [mo_norm(m) for m in want], log, "saved as PO")
            f, model, source = g, want, p
            hits += bool(model)
        agree(mo_models(f), model, log, "the catalog")
        agree(mo_models(f.get_entries()), model, log, "the catalog's list")
        ensure(len(f) == len(model), "length %d, expected %d", len(f), len(model))
        if model:
            agree([rs_mo_model(f[len(model) - 1])], [model[-1]], log, "the last message by index")
        ensure(dict(f.get_metadata()) == meta, "metadata is %r after\n  %s", dict(f.get_metadata()), "\n  ".join(log))
        ensure(f.wrapwidth == ww, "wrapwidth is %r after\n  %s", f.wrapwidth, "\n  ".join(log))
        ensure(f.path_or_content == source and f.byte_content is None, "it says it was read from %r %r, not %r", f.path_or_content, f.byte_content, source)
        ensure(f.version == version and f.magic_number == magic, "version %r, magic number %r after\n  %s", f.version, f.magic_number, "\n  ".join(log))
    if len(model) >= 2:
        a, b = s.pick(model), s.pick(model)
        compare(ctx, a, b, rs_mo_entry(a), rs_mo_entry(b), s, MOCMP)
    a = some_mo(s, model)
    b = some_mo(s, [a])
    compare(ctx, a, b, rs_mo_entry(a), rs_mo_entry(b), s, MOCMP)
    ctx.key(log)
    ctx.note("\n".join(log))
    ctx.nontrivial(hits > 0)
    ctx.label("catalog")


def m_blank():
    return {k: v for k, v in gen.blank().items() if k in MOFIELDS}


def distinct(model):
    ks = [mo_key(m) for m in model]
    return len(set(ks)) == len(ks) and "" not in ks


# -------------------------------------------------------------------- C30

JUNK = [
    'msgid "a"\n', 'msgstr "b"\n', 'msgid "', '"', "msgstr[0] \"x\"\n", "msgstr[", "#~ ", "#| ", "#: ", "#, ", "#. ", "# ", "#", "\n", "\\", '"x"\n', "msgctxt", "msgid_plural \"p\"\n",
    "\r\n", "\0", "é", "\ufeff", "domain \"x\"\n", "msgid", "\t", "#~| msgid \"o\"\n", "#~ msgid \"o\"\n#~ msgstr \"\"\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n",
    "msgstr[99999999999999999999] \"x\"\n", "msgstr[-1] \"x\"\n", "msgstr[a] \"x\"\n", '"unfinished\n', 'msgid "a\\"\n', 'msgid "\\q"\n',
]


def junk(s):
    k = s.below(4)
    if k == 0:
        return "".join(s.pick(JUNK) for _ in range(s.size(14)))
    if k == 1:
        return gen.text(s, 20)
    c = gen.catalog(s, 3)
    t = lay(s, c)
    if k == 2:
        # edits
        for _ in range(s.range(1, 4)):
            i = s.upto(len(t))
            j = min(len(t), i + s.below(6))
            t = t[:i] + s.pick(["", s.pick(JUNK), gen.text(s, 3)]) + t[j:]
        return t
    return t[: s.upto(len(t))]


def kind(f, *a, **k):
    """The result, or the class of the exception."""
    try:
        return ("result", f(*a, **k))
    except UnicodeEncodeError:
        return ("unicode", None)
    except Exception as e:
        return (type(e), str(e))


BAD_PO = ['msgid "a\n', 'msgfoo "a"\n', 'msgid "a" "b"\n', '"a"\n', 'msgstr "a"\n', "foo\n", 'msgid "\\q"\nmsgstr ""\n', 'msgid "a"b"\nmsgstr ""\n', "msgid a\n"]


def c30(s, ctx):
    what = s.below(5)
    ctx.label(["escaping", "PO text", "PO file", "MO file", "malformed"][what])
    if what == 0:
        t = "".join(s.pick([s.pick(["\\"]), s.pick('"nrtbvf\\'), atom30(s), "\\" + chr(s.below(128))]) for _ in range(s.size(14)))
        if s.one_in(60):
            # many times that, or such a thing at the end of much else
            n = s.pick([100, 1000, 4000, 70000])
            t = t * (n // max(1, len(t)) + 1) if s.bool() else s.pick(["a", "\\\\", "é", "\n"]) * n + t
        ctx.key(0, t)
        ctx.note("string %r" % t)
        ctx.nontrivial("\\" in t)
        k, v = kind(rspolib.escape, t)
        ensure(k == "result" and v == gen.escape(t), "escape gives %r, expected %r", v, gen.escape(t))
        ensure(rspolib.unescape(v) == t, "unescaping %r gives %r", v, rspolib.unescape(v))
        want = gen.unescape(t)
        k, v = kind(rspolib.unescape, t)
        if want is None:
            ensure(k is rspolib.EscapingError, "unescape gives %r %r, expected an escaping error", k, v)
            ensure(t in v, "the escaping error does not tell the text %r: %r", t, v)
        else:
            ensure(k == "result" and v == want, "unescape gives %r %r, expected %r", k, v, want)
        return
    fac = s.bool()
    if what in (1, 2):
        t = junk(s)
        ctx.key(what, t)
        ctx.note("document %r" % t)
        f = rspolib.pofile if fac else rspolib.POFile
        ww = s.pick([78, 0, 1, 20])
        if what == 1:
            if s.one_in(30):
                t += "\ud800"
            k, v = kind(f, t, ww)
            ensure(k != "unicode" or "\ud800" in t, "a Unicode error")
        else:
            p = os.path.join(ctx.scratch, s.pick(["x.po", "é.po", "a b"]))
            b = t.encode("utf-8", "surrogatepass")
            if s.one_in(3):
                i = s.upto(len(b))
                b = b[:i] + s.pick([b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\0"]) + b[i:]
            with open(p, "wb") as fp:
                fp.write(b)
            k, v = kind(f, p, ww)
            os.unlink(p)
        ctx.nontrivial(len(t) > 1)
        if k == "result":
            ensure(type(v) is rspolib.POFile, "a %s", type(v))
            str(v), v.as_bytes(), v.percent_translated()
            ctx.label("read")
        elif k != "unicode":
            ensure(k is rspolib.SyntaxError, "%s (%s) is raised, not a syntax error", k, v)
            ensure(v != "", "a syntax error with no text")
        return
    if what == 3:
        f = rspolib.mofile if fac else rspolib.MOFile
        how = s.below(4)
        p = os.path.join(ctx.scratch, "x.mo")
        model = [m for m in mo_messages(s, 2, 4, True)]
        g = rs_mo_file(gen.metadata(s), model, 78)
        b = bytes(g.as_bytes_be() if s.bool() else g.as_bytes_le())
        must = None
        if how == 0:
            must = True
        elif how == 1:
            # cut off within a table or a string
            o = "<" if b[0] == 0xDE else ">"
            n = struct.unpack(o + "I", b[8:12])[0]
            t = struct.unpack("%s%dI" % (o, 4 * n), b[28:28 + 16 * n])
            end = max([28 + 16 * n] + [at + size for size, at in zip(t[::2], t[1::2]) if size])
            b = b[: s.upto(end - 1)]
            must = False
        elif how == 2:
            for _ in range(s.range(1, 4)):
                i = s.below(len(b))
                b = b[:i] + bytes([s.pick([0, 1, 0xFF, 0x7F, 0x80, s.upto(255)])]) + b[i + 1:]
        else:
            b = bytes(s.upto(255) for _ in range(s.size(60)))
        ctx.key(3, b)
        ctx.note("MO bytes %s" % b.hex())
        ctx.nontrivial(len(b) > 4)
        with open(p, "wb") as fp:
            fp.write(b)
        k, v = kind(f, p)
        os.unlink(p)
        if k == "result":
            ensure(type(v) is rspolib.MOFile, "a %s", type(v))
            str(v), v.as_bytes()
            ensure(must is not False, "a file cut off after %d bytes is read", len(b))
            ctx.label("read")
        else:
            ensure(k is rspolib.IOError, "%s (%s) is raised, not an I/O error", k, v)
            ensure(v != "", "an I/O error with no text")
            if len(b) >= 4 and b[:4] not in (b"\xde\x12\x04\x95", b"\x95\x04\x12\xde"):
                for o in "<>":
                    n = str(struct.unpack(o + "I", b[:4])[0])
                    ensure(n in v, "the error does not tell the magic number %s: %s", n, v)
            ensure(must is not True, "a good file is rejected: %s", v)
        return
    # surely malformed, or not there
    if s.one_in(4):
        # a file that cannot be opened, or not be read
        p = "/proc/self/mem" if s.bool() else os.path.join(ctx.scratch, "x")
        name = s.pick(["pofile", "POFile", "mofile", "MOFile"])
        ctx.key(6, p[:5] == "/proc", name)
        ctx.note("%s(%r)" % (name, "/proc/self/mem" if p[:5] == "/proc" else "a file that cannot be opened"))
        ctx.nontrivial()
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        if p[:5] != "/proc":
            with open(p, "w") as fp:
                fp.write("")
            resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
        try:
            k, v = kind(getattr(rspolib, name), p)
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        ensure(k is (rspolib.SyntaxError if name[0] in "pP" else rspolib.IOError), "%s: %s %s", name, k, v)
        ensure(v != "", "an error with no text")
        return
    if s.bool():
        t = s.pick(["nope.mo", "/nonexistent/x.mo", "text", "é", "\0", " ", "\n", "\t \u3000", "\ufeff", "a" * 5000, "msgid \"a\"\nmsgstr \"b\"\n", ctx.scratch])
        ctx.key(4, t != ctx.scratch and t)
        ctx.note("mofile(%r)" % t)
        k, v = kind(rspolib.mofile if fac else rspolib.MOFile, t)
        ensure(k is rspolib.IOError, "mofile(%r): %s %s, not an I/O error", t, k, v)
        return
    c = gen.catalog(s, 2)
    t = lay(s, c).rstrip("\r\n") + "\n\n" + s.pick(BAD_PO)
    if t.endswith('msgstr "a"\n') or t.endswith('\n"a"\n'):
        # only wrong where nothing came before
        t = t[t.rindex("\n\n") + 2:]
    ctx.key(5, t)
    ctx.note("document %r" % t)
    ctx.nontrivial()
    k, v = kind(rspolib.pofile if fac else rspolib.POFile, t)
    ensure(k is rspolib.SyntaxError, "%s %s, not a syntax error", k, v)


def atom30(s):
    return s.pick([gen.atom(s), s.pick(["\x0b", "\x0c", "\x11", "\x12", "\0", "q", "x", "0"])])


# -------------------------------------------------------------------- C38

def full_device(d):
    """A device of our own that has never room, if we may make one."""
    p = os.path.join(d, "full")
    try:
        os.mknod(p, stat.S_IFCHR | 0o600, os.makedev(1, 7))
        fd = os.open(p, os.O_WRONLY)
    except OSError:
        return False
    try:
        os.write(fd, b"x")
        return False
    except OSError as e:
        return e.errno == errno.ENOSPC
    finally:
        os.close(fd)


def c38(s, ctx):
    mo = s.bool()
    ww = s.pick([78, 0, 30])
    if mo:
        c = [gen.metadata(s), mo_messages(s, 2, 5, True)]
        f = rs_mo_file(c[0], c[1], ww)
    else:
        c = gen.catalog(s, 4)
        c["entries"] += [dict(gen.blank(), msgid="m%d" % i, msgstr="t" * s.pick([1, 50])) for i in range(s.pick([30, 300, 2000]))] if s.one_in(12) else []
        f = rs_file(c, ww)
    name = s.pick(["save", "save_as_pofile", "save_as_mofile"])
    binary = name == "save_as_mofile" or (mo and name == "save")
    text = str(f)
    data = bytes(f.as_bytes()) if binary else text.encode()
    d = os.path.join(ctx.scratch, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    p = os.path.join(d, s.pick(["x", "x.po", "é ü.mo", "x" * 255]))
    fault = s.weighted([6, 2, 4, 1])
    limit = None
    if s.bool():
        with open(p, "wb") as fp:
            fp.write(b"old" * s.pick([0, 1, 100, 5000]))
    if fault == 0:
        # room for a part of it
        limit = resource.RLIMIT_FSIZE, s.pick([0, len(data) - 1, s.upto(max(0, len(data) - 1)), s.upto(max(0, len(data) - 1)), min(8191, max(0, len(data) - 1))])
        limit = limit[0], max(0, limit[1])
    elif fault == 1:
        limit = resource.RLIMIT_FSIZE, len(data) + s.pick([0, 1, 1000])
    elif fault == 2:
        kind_ = s.below(7)
        if kind_ == 6 and not full_device(d):
            kind_ = 1
        if kind_ == 6:
            p = os.path.join(d, "full")
        elif kind_ == 0:
            p = d
        elif kind_ == 1:
            p = os.path.join(d, "none", "x.po")
        elif kind_ == 2:
            with open(os.path.join(d, "file"), "w"):
                pass
            p = os.path.join(d, "file", "x.po")
        elif kind_ == 3:
            p = os.path.join(d, "y" * 256)
        elif kind_ == 4:
            p = os.path.join(d, "a\0b")
        else:
            limit = resource.RLIMIT_NOFILE, 0
    must_fail = fault == 2 or (fault == 0 and limit[1] < len(data))
    ctx.label(["room for a part", "just enough room", "cannot be created", "no fault"][fault])
    ctx.key(mo, name, c, fault, limit, p[len(d):])
    ctx.note("%s.%s(%r), %d bytes, limit %r" % ("MOFile" if mo else "POFile", name, p[len(d):], len(data), limit and limit[1]))
    ctx.nontrivial(must_fail)
    if limit:
        soft, hard = resource.getrlimit(limit[0])
        resource.setrlimit(limit[0], (limit[1], hard))
    failed = None
    try:
        getattr(f, name)(p)
    except BaseException as e:
        if isinstance(e, (MemoryError, KeyboardInterrupt, SystemExit)):
            raise
        failed = "%s: %s" % (type(e).__name__, e)
    finally:
        if limit:
            resource.setrlimit(limit[0], (soft, hard))
    try:
        got = None
        if os.path.isfile(p):
            with open(p, "rb") as fp:
                got = fp.read()
    except (OSError, ValueError):
        pass
    shutil.rmtree(d)
    if failed is None:
        ensure(got == data, "%s returned, but the file holds %s of %d bytes", name, "none" if got is None else "%d" % len(got) if got == data[:len(got)] else "other than the first %d" % len(got), len(data))
    else:
        ensure(must_fail, "%s failed: %s", name, failed)
        ensure(failed.split(": ", 1)[1] != "", "%s failed without telling why", name)
    # and the catalog is as it was
    ensure(str(f) == text, "the catalog is now\n%s\nnot\n%s", f, text)


PROPS = {
    p.id: p
    for p in [
        Prop(
            "C26", 24000, 480000,
            "A case is a catalog written by one library and read by the other, or a document in a free layout read by both; non-trivial if a message has more than id and translation.",
            ["message ids are not empty, plural forms at most ten, occurrence paths have no white space or asterisk; paths with a colon and a line number, vertical tab and form feed are in known findings"],
            c26,
        ),
        Prop(
            "C27", 24000, 480000,
            "A case is a catalog compiled here and looked up by gettext and polib, or compiled by polib and read here; non-trivial if a translated message has a context or a plural.",
            ["distinct keys without NUL and EOT, a UTF-8 header and a valid plural rule"],
            c27,
        ),
        Prop("C28", 40000, 800000, "A case is a program of up to 16 calls on a catalog, or 6 on a message; non-trivial if a call found, changed or removed a message.", ["a message has plural translations or a singular one"], c28),
        Prop("C29", 40000, 800000, "A case is a program of up to 16 calls on a catalog, or 6 on a message; non-trivial if a call found, changed or removed a message.", ["the empty context is not judged in lookups by context"], c29),
        Prop("C30", 60000, 1200000, "A case is a string, document, file or path given to one of the functions; non-trivial if it has an escape or more than a few characters.", [], c30),
        Prop("C38", 12000, 240000, "A case is one call to save a catalog, with a fault or without; non-trivial if the file cannot be created or has no room for all of it.", ["faults are limits of the process, paths below a scratch directory, and a device there that is always full (if it can be made)"], c38),
    ]
}
