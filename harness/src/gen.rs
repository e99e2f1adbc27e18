//! Generators.  A draw of zero is always the simplest choice.
use crate::engine::Src;
use crate::model::*;
use std::collections::BTreeMap;

pub const LETTERS: &[char] = &['a', 'b', 'c', 'd', 'e', 'x', 'A', 'Z', '0', '1', '9', '.', ',', '-', '/', ':', '%', '#', '~', '|', '[', ']', '_', '\''];
pub const ESCAPED: &[char] = &['\n', '"', '\\', '\t', '\r', '\u{8}', '\u{11}', '\u{12}'];
pub const CONTROL: &[char] = &['\u{0}', '\u{4}', '\u{1}', '\u{7}', '\u{b}', '\u{c}', '\u{1b}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{85}', '\u{9f}'];
pub const UNICODE: &[char] = &[
    'é', 'ñ', 'ß', 'Ж', 'א', 'ش', '中', '文', '語', '。', 'あ', '한', 'ｗ', '\u{a0}', '\u{301}', '\u{200b}', '\u{200d}', '\u{202e}', '\u{2028}',
    '\u{2029}', '\u{2003}', '\u{3000}', '\u{feff}', '\u{ad}', '\u{2014}', '€', '😀', '👩', '🇪', '🇸', '\u{fe0f}', '\u{10ffff}', '\u{e000}', '\u{fffd}',
];
pub const WORDS: &[&str] = &[
    "word", "a b", " ", "  ", "the quick brown fox ", "Hello, world!", "%s", "%d files ", "\\n", "\\\"", "\\\\", "\\", "msgid", "msgstr \"", "#~ ", "#| ", "#: ",
    "fuzzy", "x\n", "\n\n", "a\\", "\"\"", " \"", "http://example.com/a-b?c=d ", "longunbreakablewordlongunbreakableword", "naïve ", "日本語テキスト", "über-lang ", "Content-Type: x",
    "msgstr[0]", "\\t", "0", "-", "tab\t",
];

/// Any text.
pub fn text(s: &mut Src, max: usize) -> String {
    let n = s.size(max);
    let mut o = String::new();
    for _ in 0..n {
        atom(s, &mut o);
    }
    o
}

fn atom(s: &mut Src, o: &mut String) {
    match s.weighted(&[40, 12, 10, 4, 14, 18, 2]) {
        0 => o.push(*s.pick(LETTERS)),
        1 => o.push(' '),
        2 => o.push(*s.pick(ESCAPED)),
        3 => o.push(*s.pick(CONTROL)),
        4 => o.push(*s.pick(UNICODE)),
        5 => o.push_str(s.pick(WORDS)),
        _ => {
            let v = s.upto(0x10ffff) as u32;
            o.push(char::from_u32(v).unwrap_or('\u{fffd}'))
        }
    }
}

pub fn text1(s: &mut Src, max: usize) -> String {
    let t = text(s, max);
    if t.is_empty() {
        "a".to_string()
    } else {
        t
    }
}

/// Longer text made mostly of words, for wrapping.
pub fn prose(s: &mut Src, max: usize) -> String {
    let n = s.range(1, max);
    let mut o = String::new();
    let wide = s.weighted(&[3, 1, 1]);
    for _ in 0..n {
        match s.weighted(&[8, 10, 3, 2, 1]) {
            0 => o.push(' '),
            1 => {
                let k = s.range(1, 14);
                let c = match wide {
                    0 => 'w',
                    1 => *s.pick(&['w', 'é', '中']),
                    _ => *s.pick(&['中', '語', 'ñ', 'w', '한']),
                };
                for _ in 0..k {
                    o.push(c);
                }
            }
            2 => o.push_str(s.pick(WORDS)),
            3 => o.push(*s.pick(ESCAPED)),
            _ => atom(s, &mut o),
        }
    }
    o
}

pub fn anytext(s: &mut Src) -> String {
    match s.weighted(&[10, 3]) {
        0 => text(s, 24),
        _ => prose(s, 40),
    }
}

pub fn opt<T>(s: &mut Src, num: u64, den: u64, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.upto(den - 1) >= den - num {
        Some(f(s))
    } else {
        None
    }
}

/// One line of a comment or header: no newline, no whitespace at its end.
pub fn comment_line(s: &mut Src) -> String {
    let t = match s.weighted(&[6, 2]) {
        0 => text(s, 12),
        _ => prose(s, 12),
    };
    t.replace('\n', " ").trim_end().to_string()
}

pub fn comment(s: &mut Src) -> String {
    let n = 1 + s.size(4);
    (0..n).map(|_| comment_line(s)).collect::<Vec<_>>().join("\n")
}

pub fn header(s: &mut Src) -> Option<String> {
    if s.weighted(&[2, 3]) == 0 {
        return None;
    }
    let h = comment(s);
    Some(h.trim_end_matches('\n').to_string())
}

pub fn path(s: &mut Src) -> String {
    let t = match s.weighted(&[4, 4]) {
        0 => s.pick(&["a.py", "src/main.rs", "b", "dir/sub/file-name.c", "x_y.html", "ü/ñ.c", "longlonglong/longlonglong/longlonglong/longlonglong.c"]).to_string(),
        _ => text(s, 10),
    };
    let t: String = t.chars().filter(|c| !c.is_whitespace() && *c != ':').collect();
    if t.is_empty() {
        "p".into()
    } else {
        t
    }
}

pub fn occurrences(s: &mut Src) -> Vec<(String, String)> {
    let n = match s.weighted(&[8, 8, 1]) {
        0 => 0,
        1 => s.range(1, 4),
        _ => s.range(5, 20),
    };
    (0..n).map(|_| occurrence(s)).collect()
}

/// A path and, if the path has no colon, mostly a line.
pub fn occurrence(s: &mut Src) -> (String, String) {
    let p = path(s);
    if s.one_in(12) {
        return (colons(s, &p), String::new());
    }
    let l = match s.weighted(&[12, 4, 1]) {
        0 => s.upto(2000).to_string(),
        1 => String::new(),
        _ => {
            let z = s.below(4);
            let more = if s.one_in(4) { "9".repeat(s.range(1, 30)) } else { String::new() };
            format!("{}{}{more}", "0".repeat(z), s.upto(u64::MAX))
        }
    };
    (p, l)
}

/// The path with a colon in it, but not such that it ends in a line number.
pub fn colons(s: &mut Src, p: &str) -> String {
    let mut cs: Vec<char> = p.chars().collect();
    for _ in 0..s.range(1, 2) {
        let at = s.upto(cs.len() as u64) as usize;
        cs.insert(at, ':');
    }
    let t: String = cs.into_iter().collect();
    let tail = t.split_once(':').unwrap().1;
    if !tail.is_empty() && tail.chars().all(|c| c.is_ascii_digit()) {
        format!("{t}:")
    } else {
        t
    }
}

pub fn flags(s: &mut Src) -> Vec<String> {
    let n = match s.weighted(&[8, 5, 2]) {
        0 => 0,
        1 => 1,
        _ => s.range(2, 4),
    };
    (0..n)
        .map(|_| match s.weighted(&[4, 5, 1]) {
            0 => "fuzzy".to_string(),
            1 => s.pick(&["c-format", "python-format", "no-wrap", "range: 0..10", "fuzzy2", "not fuzzy", "Fuzzy"]).to_string(),
            _ => {
                let t: String = text(s, 5).chars().filter(|c| *c != ',' && *c != '\n').collect();
                let t = t.trim().to_string();
                if t.is_empty() {
                    "f".into()
                } else {
                    t
                }
            }
        })
        .collect()
}

pub const STD_KEYS: &[&str] = &[
    "Project-Id-Version",
    "Report-Msgid-Bugs-To",
    "POT-Creation-Date",
    "PO-Revision-Date",
    "Last-Translator",
    "Language-Team",
    "Language",
    "MIME-Version",
    "Content-Type",
    "Content-Transfer-Encoding",
    "Plural-Forms",
];

pub fn meta_key(s: &mut Src) -> String {
    match s.weighted(&[5, 4, 2]) {
        0 => s.pick(STD_KEYS).to_string(),
        1 => s.pick(&["X-Generator", "X-Poedit-2", "X-Poedit-10", "X-Poedit-1", "Foo", "foo", "language", "x"]).to_string(),
        _ => {
            let t: String = text(s, 8).chars().filter(|c| *c != ':' && *c != '\n' && *c != '\0').collect();
            if t.is_empty() {
                "k".into()
            } else {
                t
            }
        }
    }
}

pub fn meta_value(s: &mut Src) -> String {
    let t = match s.weighted(&[5, 5]) {
        0 => s
            .pick(&["", "1.0", "text/plain; charset=UTF-8", "8bit", "nplurals=2; plural=(n != 1);", "es", "2020-01-01 10:00+0100", "A B <a@b.c>", "\"q\"", "a: b: c"])
            .to_string(),
        _ => match s.weighted(&[3, 1]) {
            0 => text(s, 10),
            _ => prose(s, 20),
        },
    };
    t.replace(['\n', '\0'], " ").trim().to_string()
}

pub fn metadata(s: &mut Src) -> Meta {
    let n = s.size(8);
    let mut m: Meta = (0..n).map(|_| (meta_key(s), meta_value(s))).collect();
    if s.one_in(400) {
        let n = big(s).min(600);
        m.extend((0..n).map(|i| (format!("X-Many-{i}"), i.to_string())));
    }
    m
}

/// Message in the domain of the PO text round trip.
pub fn message(s: &mut Src) -> M {
    let mut m = M::default();
    m.msgid = match s.weighted(&[10, 2]) {
        0 => text(s, 16),
        _ => prose(s, 40),
    };
    if m.msgid.is_empty() {
        m.msgid = "a".into();
    }
    match s.weighted(&[10, 4, 1, 1, 1]) {
        0 => m.msgstr = Some(anytext(s)),
        1 => {
            m.msgid_plural = Some(anytext(s));
            let n = s.range(1, 4);
            m.msgstr_plural = (0..n).map(|_| anytext(s)).collect();
        }
        2 => m.msgstr = None,
        3 => {
            m.msgid_plural = opt(s, 3, 4, anytext);
            let n = s.range(5, 13);
            m.msgstr_plural = (0..n).map(|_| text(s, 3)).collect();
        }
        _ => {
            m.msgid_plural = Some(anytext(s));
            m.msgstr = Some(anytext(s));
        }
    }
    m.msgctxt = opt(s, 1, 3, anytext);
    if m.msgctxt.is_some() && s.one_in(12) {
        m.msgid = String::new();
    }
    m.obsolete = s.one_in(5);
    m.comment = opt(s, 1, 4, comment);
    m.tcomment = opt(s, 1, 4, comment);
    m.occurrences = occurrences(s);
    m.flags = flags(s);
    if s.one_in(3) {
        m.previous_msgid = opt(s, 2, 3, anytext);
        m.previous_msgid_plural = opt(s, 1, 3, anytext);
        m.previous_msgctxt = opt(s, 1, 3, anytext);
    }
    if s.one_in(2000) {
        inflate(s, &mut m);
    }
    m
}

/// Sizes around which counters and buffers of a fixed width go wrong.
pub fn big(s: &mut Src) -> usize {
    let n = match s.weighted(&[6, 3, 2, 3]) {
        0 => *s.pick(&[127usize, 128, 255, 256, 257, 300]),
        1 => *s.pick(&[1023usize, 1024, 1025, 2000, 4095, 4096, 4097]),
        2 => *s.pick(&[8191usize, 8192, 8193, 16384, 32767, 32768]),
        _ => *s.pick(&[65535usize, 65536, 65537, 70000]),
    };
    // what stands around a string counts for the line
    if s.one_in(3) {
        n - s.below(24)
    } else {
        n
    }
}

/// Makes one field of a message about as wide as the width, or wider.
pub fn widen(s: &mut Src, m: &mut M, ww: usize) {
    let n = match s.below(3) {
        0 => ww.min(12_000) + s.below(12),
        1 => ww.min(6_000) * 2,
        _ => ww.min(12_000).saturating_sub(s.below(12)),
    };
    let unit = *s.pick(&["word ", "w ", "中 文", "a-", "long word\n"]);
    let t = stretch(unit, n);
    match s.below(8) {
        0 => m.msgid = t,
        1 => m.msgctxt = Some(t),
        2 => m.comment = Some(stretch("word ", n).trim().to_string()),
        3 => m.tcomment = Some(stretch("word ", n).trim().to_string()),
        4 => m.occurrences = (0..n / 5).map(|i| (format!("p{i}"), "1".to_string())).collect(),
        5 => m.previous_msgid = Some(t),
        _ => match m.msgstr_plural.last_mut() {
            Some(f) => *f = t,
            None => m.msgstr = Some(t),
        },
    }
}

/// `t` repeated until it is `n` bytes long or more.
pub fn stretch(t: &str, n: usize) -> String {
    let t = if t.is_empty() { "a" } else { t };
    let mut o = t.repeat(n / t.len() + 1);
    let mut k = n;
    while !o.is_char_boundary(k) {
        k += 1;
    }
    o.truncate(k);
    o
}

/// Makes one field of a message very long.
fn inflate(s: &mut Src, m: &mut M) {
    let n = big(s);
    match s.below(13) {
        0 => m.msgid = stretch(&m.msgid, n),
        1 => match (&m.msgstr, m.msgstr_plural.last_mut()) {
            (_, Some(t)) => *t = stretch(t, n),
            (Some(t), _) => m.msgstr = Some(stretch(t, n)),
            _ => m.msgstr = Some(stretch("", n)),
        },
        2 => m.msgctxt = Some(stretch(m.msgctxt.as_deref().unwrap_or(""), n)),
        3 => {
            if !m.msgstr_plural.is_empty() {
                m.msgid_plural = Some(stretch(m.msgid_plural.as_deref().unwrap_or(""), n))
            }
        }
        4 => {
            m.msgid_plural = m.msgid_plural.take().or(Some("p".into()));
            m.msgstr = None;
            m.msgstr_plural = (0..n.min(4200)).map(|i| format!("f{i}")).collect();
        }
        5 => m.flags = (0..n.min(20_000)).map(|i| format!("f{i}")).collect(),
        6 => m.occurrences = (0..n.min(20_000)).map(|i| (format!("p{i}"), (i * 7919).to_string())).collect(),
        7 => m.comment = Some((0..n.min(20_000)).map(|i| format!("c{i}")).collect::<Vec<_>>().join("\n")),
        8 => m.tcomment = Some((0..n.min(20_000)).map(|i| format!("t{i}")).collect::<Vec<_>>().join("\n")),
        9 => m.previous_msgid = Some(stretch(m.previous_msgid.as_deref().unwrap_or(""), n)),
        10 => m.previous_msgid_plural = Some(stretch(m.previous_msgid_plural.as_deref().unwrap_or(""), n)),
        11 => m.previous_msgctxt = Some(stretch(m.previous_msgctxt.as_deref().unwrap_or(""), n)),
        _ => {
            // a path is without whitespace and colons
            let p = m.occurrences.first().map(|o| o.0.replace(':', "")).unwrap_or("p".into());
            m.occurrences.insert(0, (stretch(&p, n), u64::MAX.to_string()));
        }
    }
}

/// Now and then a list of very many messages, made of the given ones.
pub fn many<T: Clone>(s: &mut Src, v: Vec<T>, one_in: u64, name: impl Fn(&mut T, usize)) -> Vec<T> {
    if v.is_empty() || !s.one_in(one_in) {
        return v;
    }
    let n = big(s);
    // only small ones are worth having so often
    let n = if s.upto(3) > 0 { n.min(2000) } else { n };
    let mut o = Vec::with_capacity(n);
    for i in 0..n {
        let mut e = v[i % v.len()].clone();
        name(&mut e, i);
        o.push(e);
    }
    o
}

pub fn catalog(s: &mut Src, max: usize) -> Cat {
    let header = header(s);
    let metadata = metadata(s);
    let fuzzy = s.one_in(4);
    let n = s.size(max);
    let entries = (0..n).map(|_| message(s)).collect();
    let entries = many(s, entries, 4000, |e, i| {
        if i > 3 {
            *e = M { msgid: format!("m{i}"), msgstr: Some(format!("t{i}")), obsolete: e.obsolete, ..M::default() }
        }
    });
    Cat { header, metadata, fuzzy, entries }
}

pub fn width(s: &mut Src) -> usize {
    match s.weighted(&[12, 6, 6, 1, 6]) {
        0 => 78,
        1 => s.range(0, 12),
        2 => s.range(13, 100),
        3 => s.range(100, 10_000),
        _ => *s.pick(&[0usize, 1, 2, 3, 4, 7, 8, 76, 77, 79, 80, 120, 1000, usize::MAX]),
    }
}

/// Remove comment lines that do not fit, which are wrapped when written.
pub fn fit_comments(c: &mut Cat, ww: usize) {
    use unicode_width::UnicodeWidthStr;
    for e in &mut c.entries {
        let fits = |t: &Option<String>, k: usize| {
            t.as_ref().map_or(true, |t| {
                t.split('\n').all(|l| {
                    let w = UnicodeWidthStr::width(l).max(cwidth(l));
                    w.checked_add(k).map_or(false, |w| w <= ww)
                })
            })
        };
        if !fits(&e.comment, 3) {
            e.comment = None;
        }
        if !fits(&e.tcomment, 2) {
            e.tcomment = None;
        }
    }
}

/// Sum of the display widths of the characters.
pub fn cwidth(s: &str) -> usize {
    s.chars().map(|c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(0)).sum()
}

// ------------------------------------------------------------------- MO

fn no_nul(t: String) -> String {
    t.replace('\0', "0")
}
fn no_nul_eot(t: String) -> String {
    t.replace('\0', "0").replace('\u{4}', "4")
}

pub fn mo_key_text(s: &mut Src) -> String {
    let t = match s.weighted(&[3, 6, 1]) {
        0 => s.pick(&["a", "b", "ab", "a b", "é", "z", "A"]).to_string(),
        1 => text(s, 12),
        _ => prose(s, 20),
    };
    no_nul_eot(t)
}

/// Messages with distinct keys for MO files.  `full`: every translation is
/// non-empty.
pub fn mo_messages(s: &mut Src, max: usize, full: bool) -> Vec<Mo> {
    let n = match s.weighted(&[12, 1]) {
        0 => s.size(max),
        _ => s.range(0, 40),
    };
    let mut by: BTreeMap<String, Mo> = BTreeMap::new();
    let mut order = vec![];
    for _ in 0..n {
        let mut m = Mo::default();
        m.msgid = mo_key_text(s);
        m.msgctxt = opt(s, 1, 3, mo_key_text);
        if m.msgid.is_empty() && (m.msgctxt.is_none() || s.bool()) {
            m.msgid = "a".into();
        }
        if m.msgctxt.is_some() && s.one_in(12) {
            // only the first EOT ends the context
            let at = s.below(m.msgid.chars().count() + 1);
            let at = m.msgid.char_indices().nth(at).map_or(m.msgid.len(), |x| x.0);
            m.msgid.insert(at, '\u{4}');
        }
        let tr = |s: &mut Src| {
            let t = no_nul(anytext(s));
            if full && t.is_empty() {
                "t".to_string()
            } else {
                t
            }
        };
        if s.one_in(3) {
            m.msgid_plural = Some(no_nul(anytext(s)));
            let k = match s.weighted(&[8, 1]) {
                0 => s.range(1, 4),
                _ => s.range(5, 12),
            };
            m.msgstr_plural = (0..k).map(|_| tr(s)).collect();
        } else {
            m.msgstr = Some(tr(s));
        }
        if s.one_in(3000) {
            let n = big(s);
            match s.below(5) {
                0 => m.msgid = stretch(&m.msgid, n),
                1 => m.msgctxt = Some(stretch(m.msgctxt.as_deref().unwrap_or(""), n)),
                2 => match m.msgid_plural {
                    Some(ref t) => m.msgid_plural = Some(stretch(t, n)),
                    None => m.msgstr = m.msgstr.map(|t| stretch(&t, n)),
                },
                3 => {
                    m.msgid_plural = m.msgid_plural.or(Some("p".into()));
                    m.msgstr = None;
                    m.msgstr_plural = (0..n.min(4200)).map(|i| format!("f{i}")).collect();
                }
                _ => match m.msgstr_plural.last_mut() {
                    Some(t) => *t = stretch(t, n),
                    None => m.msgstr = m.msgstr.map(|t| stretch(&t, n)),
                },
            }
        }
        let k = m.key();
        if !by.contains_key(&k) {
            by.insert(k.clone(), m);
            order.push(k);
        }
    }
    let v: Vec<Mo> = order.into_iter().filter_map(|k| by.remove(&k)).collect();
    let n = v.len();
    many(s, v, 4000, |e, i| {
        if i >= n || i > 3 {
            *e = Mo { msgid: format!("m{i}\u{7f}{i}"), msgstr: Some(format!("t{i}")), ..Mo::default() }
        }
    })
}

pub fn mo_metadata(s: &mut Src) -> Meta {
    metadata(s)
}

pub fn mo_catalog(s: &mut Src, max: usize, full: bool) -> MoCat {
    MoCat { metadata: mo_metadata(s), entries: mo_messages(s, max, full) }
}

/// Short strings from a tiny alphabet, so that values collide.
pub fn tiny(s: &mut Src) -> String {
    if s.one_in(10) {
        s.pick(ALIKE).to_string()
    } else {
        s.pick(&["a", "b", "c", "", "A", "ab", "é"]).to_string()
    }
}

/// Strings that differ from another one in the least.
const ALIKE: &[&str] = &[
    "a ",
    " a",
    "É",
    "e\u{301}",
    "a\u{4}",
    "a\u{4}b",
    "a long text that goes on and on and on and on and on and on and on, 1",
    "a long text that goes on and on and on and on and on and on and on, 2",
];

/// As `tiny`, but not empty.
pub fn tiny_id(s: &mut Src) -> String {
    if s.one_in(10) {
        s.pick(ALIKE).to_string()
    } else {
        tiny1(s)
    }
}
pub fn tiny1(s: &mut Src) -> String {
    s.pick(&["a", "b", "c", "A", "ab", "é"]).to_string()
}

/// A translation: as `tiny`, and white space only, which is not empty.
fn tiny_text(s: &mut Src) -> String {
    if s.one_in(10) {
        s.pick(&[" ", "\n", "\t", "\u{a0}"]).to_string()
    } else {
        tiny(s)
    }
}

/// A message over a tiny alphabet, every field possibly absent or empty.
pub fn tiny_message(s: &mut Src) -> M {
    let mut m = M::default();
    m.msgid = tiny_id(s);
    if s.one_in(3) {
        m.msgid_plural = Some(tiny(s));
        m.msgstr_plural = if s.one_in(8) {
            // many forms, at most few of them empty
            let n = s.range(4, 14);
            (0..n).map(|_| if s.one_in(12) { String::new() } else { tiny1(s) }).collect()
        } else {
            let n = s.below(4);
            (0..n).map(|_| tiny_text(s)).collect()
        };
        if m.msgstr_plural.is_empty() {
            m.msgstr = opt(s, 1, 2, tiny_text);
        }
    } else {
        m.msgstr = opt(s, 4, 5, tiny_text);
    }
    m.msgctxt = opt(s, 1, 2, tiny_id);
    if m.msgctxt.is_some() && s.one_in(12) {
        m.msgid = String::new();
    }
    m.obsolete = s.one_in(4);
    m.flags = match s.weighted(&[6, 3, 1, 2]) {
        0 => vec![],
        1 => vec!["fuzzy".into()],
        2 => {
            let n = s.range(1, 4);
            let mut v: Vec<String> = (0..n).map(|_| s.pick(&["c-format", "no-wrap", "fuzz", "fuzzyish"]).to_string()).collect();
            v.insert(s.below(n + 1), "fuzzy".into());
            v
        }
        _ => vec![s.pick(&["c-format", "fuzzy2", "Fuzzy", "not fuzzy", ""]).to_string()],
    };
    m.previous_msgid = opt(s, 1, 4, tiny);
    m.previous_msgid_plural = opt(s, 1, 4, tiny);
    m.previous_msgctxt = opt(s, 1, 4, tiny);
    m.comment = opt(s, 1, 5, tiny1);
    m.tcomment = opt(s, 1, 5, tiny1);
    let n = if s.one_in(10) { s.range(3, 7) } else { s.below(3) };
    m.occurrences = (0..n).map(|_| (tiny1(s), s.pick(&["1", "2", "10", ""]).to_string())).collect();
    m
}

/// The name of a file, which may look like something else.
pub fn file_name(s: &mut Src) -> String {
    s.pick(&["a.po", "a", "with space.po", "ünï-中.po", "x.mo", "de.pot", "README", "msgid \"a\"", "#", ".hidden", "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-name.po"]).to_string()
}

/// One of the ways to write a path.
pub fn spell(s: &mut Src, p: &std::path::Path) -> String {
    let full = p.to_str().expect("path").to_string();
    let how = s.weighted(&[6, 2, 1, 1, 1]);
    if how == 0 {
        return full;
    }
    let (dir, name) = full.rsplit_once('/').expect("path");
    let cwd = std::env::current_dir().ok();
    let rel = match cwd.as_ref().and_then(|d| p.strip_prefix(d).ok()).and_then(|r| r.to_str()) {
        Some(r) => r.to_string(),
        None => return full,
    };
    match how {
        1 => rel,
        2 => format!("./{rel}"),
        3 => format!("{dir}//./{name}"),
        _ => format!("{dir}/../{}/{name}", dir.rsplit('/').next().unwrap_or(".")),
    }
}
