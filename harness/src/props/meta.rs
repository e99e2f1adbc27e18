//! C33: what is made holds what it was made from.  C34, C35: how the reading
//! of one document relates to that of another.  C36: what errors say.
use super::mob::pairs_of;
use super::po::{disturb, location, soup};
use super::wr::slashy;
use crate::engine::*;
use crate::gen;
use crate::layout::{self, Printer, Style};
use crate::model::*;
use crate::mo;
use rspolib::errors::{EscapingError, IOError, SyntaxError};
use rspolib::prelude::*;
use rspolib::{escaping, mofile, pofile, FileOptions, MOEntry, MOFile, POEntry, POFile};
use std::path::Path;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C33",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is up to five PO and MO messages (seldom hundreds), an id, a translation, a line number, a path, text or bytes and a wrap width, and everything that can be made from them; non-trivial if there is a message.",
            assumptions: &["paths are valid UTF-8"],
            case: c33,
        },
        Prop {
            id: "C34",
            quick: 375_000,
            thorough: 3_000_000,
            rule: "A case is up to five pieces of a document, each with one or more messages and some of them oddly edited, and an order to put them in, with repetitions; non-trivial if at least two pieces are usable.",
            assumptions: &[
                "a piece is usable if it is accepted after a message, its first line is not the continuation of another message and its last string is a translation",
                "no piece has a message with an empty id and no context",
            ],
            case: c34,
        },
        Prop {
            id: "C35",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is a text (fragments, or a document with random edits), its outcome, other texts with the same first lines, and its own first lines; non-trivial if it is rejected with a line number after the first line, or accepted with at least three lines.",
            assumptions: &["the texts are valid UTF-8", "an error about an escape sequence names no line"],
            case: c35,
        },
        Prop {
            id: "C36",
            quick: 2_000_000,
            thorough: 4_000_000,
            rule: "A case is an MO image with one fault, a string with a bad escape (alone, in a message and in a document) or a document with an unknown keyword or plural index; non-trivial if it is rejected.",
            assumptions: &["the strings of PO documents are valid UTF-8"],
            case: c36,
        },
    ]
}

fn text_or_big(s: &mut Src) -> String {
    let t = gen::anytext(s);
    if s.one_in(3000) {
        let n = gen::big(s);
        return gen::stretch(&t, n);
    }
    t
}

fn c33(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.size(5);
    let mut ms: Vec<M> = (0..n).map(|_| if s.one_in(3) { gen::message(s) } else { gen::tiny_message(s) }).collect();
    for i in 0..n {
        // equal ones, and whatever can be put in the fields
        if s.one_in(6) {
            ms.insert(s.below(i + 1), ms[i].clone());
        }
        if s.one_in(6) {
            ms[i].msgctxt = Some(String::new());
        }
        if s.one_in(6) {
            ms[i].msgstr = Some(gen::anytext(s));
        }
        if s.one_in(6) {
            ms[i].msgstr_plural = vec![String::new(); s.below(3)];
        }
        if s.one_in(6) {
            ms[i].msgid = String::new();
        }
    }
    let ms = gen::many(s, ms, 500, |m, i| m.msgid = format!("{}{i}", m.msgid));
    let t = text_or_big(s);
    let u = text_or_big(s);
    let line = if s.bool() { s.upto(u64::MAX) as usize } else { s.upto(100) as usize };
    let ww = if s.one_in(4) { s.upto(u64::MAX) as usize } else { gen::width(s) };
    c.key(&(&ms, &t, &u, line, ww));
    c.note(|| format!("id {t:?}, translation {u:?}, line {line}, width {ww}, messages\n  {}", ms.iter().map(short).collect::<Vec<_>>().join("\n  ")));
    c.nontrivial(!ms.is_empty());

    // messages
    let one = |what: &str, e: POEntry, want: M, l: usize| -> Res {
        ensure!(M::of(&e) == want && e.linenum == l, "message from {what}: {}, line {}", short(&M::of(&e)), e.linenum);
        Ok(())
    };
    one("an id", POEntry::from(t.as_str()), M { msgid: t.clone(), ..Default::default() }, 0)?;
    one("an id and a translation", POEntry::from((t.as_str(), u.as_str())), M { msgid: t.clone(), msgstr: Some(u.clone()), ..Default::default() }, 0)?;
    one("a line number", POEntry::from(line), M::default(), line)?;
    one("a line number, new", POEntry::new(line), M::default(), line)?;
    one("nothing", POEntry::default(), M::default(), 0)?;
    let mo = |what: &str, e: MOEntry, want: Mo| -> Res {
        ensure!(Mo::of(&e) == want, "MO message from {what}: {:?}", Mo::of(&e));
        Ok(())
    };
    mo("an id", MOEntry::from(t.as_str()), mo_of_m(&M { msgid: t.clone(), ..Default::default() }))?;
    mo("nothing", MOEntry::default(), mo_of_m(&M::default()))?;
    for m in ms.iter().take(5) {
        let e = MOEntry::new(m.msgid.clone(), m.msgstr.clone(), m.msgid_plural.clone(), m.msgstr_plural.clone(), m.msgctxt.clone());
        mo("its parts", e, mo_of_m(m))?;
    }

    // catalogs from messages
    let es: Vec<POEntry> = ms.iter().map(|m| POEntry { linenum: line, ..m.po() }).collect();
    let f = POFile::from(es.iter().collect::<Vec<_>>());
    ensure!(f.entries == es, "a catalog made from {} messages has {}", es.len(), f.entries.len());
    blank_po(&f)?;
    ensure!(f.options == plain(), "a catalog made from messages has options {:?}", f.options);
    let gs: Vec<MOEntry> = ms.iter().map(|m| mo_of_m(m).mo()).collect();
    let g = MOFile::from(gs.iter().collect::<Vec<_>>());
    ensure!(g.entries == gs, "an MO catalog made from {} messages has {}", gs.len(), g.entries.len());
    blank_mo(&g)?;
    ensure!(g.options == plain(), "an MO catalog made from messages has options {:?}", g.options);

    // options
    let b = u.clone().into_bytes();
    let all: Vec<(&str, FileOptions, FileOptions)> = vec![
        ("nothing", FileOptions::default(), plain()),
        ("text", t.as_str().into(), FileOptions { path_or_content: t.clone(), ..plain() }),
        ("text and width", (t.as_str(), ww).into(), FileOptions { path_or_content: t.clone(), wrapwidth: ww, byte_content: None }),
        ("bytes", b.clone().into(), FileOptions { byte_content: Some(b.clone()), ..plain() }),
        ("bytes and width", (b.clone(), ww).into(), FileOptions { byte_content: Some(b.clone()), wrapwidth: ww, ..plain() }),
        ("path", Path::new(t.as_str()).into(), FileOptions { path_or_content: t.clone(), ..plain() }),
    ];
    for (what, o, want) in all {
        ensure!(o == want, "options from {what} are {o:?}, expected {want:?}");
        ensure!(FileOptions::from(&o) == want, "options from options from {what} are {:?}, expected {want:?}", FileOptions::from(&o));
        let f = POFile::new(o.clone());
        ensure!(f.options == want && f.entries.is_empty(), "a new catalog with options from {what} has {:?} and {} messages", f.options, f.entries.len());
        blank_po(&f)?;
        let g = MOFile::new(o.clone());
        ensure!(g.options == want && g.entries.is_empty(), "a new MO catalog with options from {what} has {:?} and {} messages", g.options, g.entries.len());
        blank_mo(&g)?;
    }

    // catalogs that are read or compiled keep their options
    let both = FileOptions { path_or_content: t.clone(), wrapwidth: ww, byte_content: Some(f.to_string().into_bytes()) };
    let p = pofile(both.clone()).map_err(|e| format!("what was written is rejected: {e}"))?;
    ensure!(p.options == both, "a catalog that was read has options {:?}, expected {both:?}", p.options);
    let k = MOFile::from(&p);
    ensure!(k.options == both, "a compiled catalog has options {:?}, expected {both:?}", k.options);
    ensure!(k.magic_number.is_none() && k.version.is_none(), "a compiled catalog has magic number {:?} and revision {:?}", k.magic_number, k.version);
    let bytes = if s.bool() { f.as_bytes_be() } else { f.as_bytes_le() };
    let both = FileOptions { byte_content: Some(bytes.to_vec()), ..both };
    let q = mofile(both.clone()).map_err(|e| format!("MO bytes that were written are rejected: {e}"))?;
    ensure!(q.options == both, "an MO catalog that was read has options {:?}, expected {both:?}", q.options);
    Ok(())
}

fn plain() -> FileOptions {
    FileOptions { path_or_content: String::new(), wrapwidth: 78, byte_content: None }
}

fn blank_po(f: &POFile) -> Res {
    ensure!(f.header.is_none() && f.metadata.is_empty() && !f.metadata_is_fuzzy, "a new catalog has header {:?}, metadata {:?}, fuzzy {}", f.header, f.metadata, f.metadata_is_fuzzy);
    Ok(())
}

fn blank_mo(f: &MOFile) -> Res {
    ensure!(f.metadata.is_empty() && f.magic_number.is_none() && f.version.is_none(), "a new MO catalog has metadata {:?}, magic number {:?}, revision {:?}", f.metadata, f.magic_number, f.version);
    Ok(())
}

const SINGULAR: &str = "msgid \"\"\nmsgstr \"K: v\\n\"\n\nmsgid \"first\"\nmsgstr \"x\"\n\n";
const PLURAL: &str = "msgid \"\"\nmsgstr \"K: v\\n\"\n\nmsgid \"first\"\nmsgid_plural \"p\"\nmsgstr[0] \"x\"\n";

/// A piece of a document.
fn piece(s: &mut Src, c: &mut Ctx) -> String {
    let n = 1 + s.weighted(&[6, 2, 1]);
    let st = Style::any(s);
    let mut out = vec![];
    let ms: Vec<M> = (0..n).map(|_| layout::doc_message(s)).collect();
    let mut p = Printer { s, st, out: &mut out, owner: None };
    for m in &ms {
        p.message(m);
        p.separator();
    }
    let mut ls: Vec<String> = out.into_iter().map(|l| if l.crlf { l.text + "\r" } else { l.text }).collect();
    let k = s.weighted(&[3, 3, 1, 1]);
    if k > 0 {
        c.label("edited");
        disturb(s, &mut ls, k);
    }
    if s.one_in(12) {
        ls = soup(s, 20).split('\n').map(|x| x.to_string()).collect();
        ls.push("msgid \"last\"".into());
        ls.push("msgstr \"\"".into());
    }
    ls.join("\n") + "\n"
}

/// Whether the last string is a translation, so that the message is complete.
fn complete(t: &str) -> bool {
    for l in t.lines().rev() {
        let l = l.trim();
        let l = l.strip_prefix("#~").unwrap_or(l).trim();
        if l.is_empty() || l.starts_with('"') {
            continue;
        }
        return l.starts_with("msgstr");
    }
    false
}

/// Whether the first line that says something belongs to a message of its
/// own and not to the one before.
fn starts(t: &str) -> bool {
    for l in t.lines() {
        let mut w: Vec<&str> = l.trim().split_ascii_whitespace().collect();
        if w.len() > 1 && w[0] == "#~" {
            w.remove(0);
        }
        match w.as_slice() {
            [] | ["#~|", ..] | ["#:"] | ["#,"] | ["#."] => continue,
            ["msgid" | "msgctxt" | "#:" | "#," | "#.", _, ..] => return true,
            ["#|", "msgid" | "msgctxt" | "msgid_plural", ..] => return true,
            [x, ..] => return *x == "#" || x.starts_with("##"),
        }
    }
    false
}

/// The messages of a piece and their lines in it, if it is usable.
fn alone(t: &str) -> Result<Option<Vec<(M, usize)>>, String> {
    if !starts(t) || !complete(t) {
        return Ok(None);
    }
    let mut all = vec![];
    for before in [SINGULAR, PLURAL] {
        let base = pofile(before).map_err(|e| format!("rejected: {e}"))?;
        let Ok(f) = pofile(format!("{before}{t}").as_str()) else {
            all.push(None);
            continue;
        };
        ensure!(f.header.is_none() && f.metadata == base.metadata, "header {:?}, metadata {:?}\n{before}{t}", f.header, f.metadata);
        ensure!(f.entries.first() == base.entries.first(), "the message {:?} became {:?}\n{before}{t}", base.entries.first(), f.entries.first());
        let n = before.matches('\n').count();
        if let Some(e) = f.entries[1..].iter().find(|e| e.linenum <= n) {
            fail!("message {} is on line {} of {n} before it\n{before}{t}", short(&M::of(e)), e.linenum);
        }
        all.push(Some(f.entries[1..].iter().map(|e| (M::of(e), e.linenum - n)).collect::<Vec<_>>()));
    }
    let (a, b) = (all.remove(0), all.remove(0));
    ensure!(a.is_some() == b.is_some(), "accepted after {}, but not after the other:\n{t}", if a.is_some() { "a singular message" } else { "a plural message" });
    ensure!(a == b, "read differently after a singular and a plural message:\n{a:?}\n{b:?}\n{t}");
    Ok(a.filter(|a| !a.is_empty() && a.iter().all(|(m, _)| !m.msgid.is_empty() || m.msgctxt.is_some())))
}

fn c34(s: &mut Src, c: &mut Ctx) -> Res {
    let n = 1 + s.size(4);
    let mut ps = vec![];
    for _ in 0..n {
        let t = piece(s, c);
        match alone(&t).map_err(|e| format!("one piece: {e}"))? {
            Some(ms) => ps.push((t, ms)),
            None => c.label("unusable piece"),
        }
    }
    if ps.is_empty() {
        return Ok(());
    }
    let plural = s.bool();
    let mut text = if plural { PLURAL } else { SINGULAR }.to_string();
    let base = pofile(text.as_str()).map_err(|e| format!("rejected: {e}"))?;
    let mut want = vec![(M::of(&base.entries[0]), base.entries[0].linenum)];
    let k = if s.bool() { ps.len() } else if s.one_in(200) { s.range(6, 300) } else { s.range(1, 6) };
    let mut seen = vec![];
    for i in 0..k {
        let j = if k == ps.len() && s.upto(2) > 0 { i } else { s.below(ps.len()) };
        let at = text.matches('\n').count();
        text.push_str(&ps[j].0);
        want.extend(ps[j].1.iter().map(|(m, l)| (m.clone(), l + at)));
        text.push_str(s.pick(&["", "\n", "  \n", "\r\n", "\n\n"]));
        seen.push(j);
    }
    c.key(&text);
    c.note(|| format!("order {seen:?}, document:\n{text}"));
    c.nontrivial(k >= 2);
    let f = pofile(text.as_str()).map_err(|e| format!("each piece is accepted, but not all together: {e}\norder {seen:?}\n{text}"))?;
    ensure!(f.header.is_none() && f.metadata == base.metadata, "header {:?}, metadata {:?}\n{text}", f.header, f.metadata);
    let got: Vec<M> = f.entries.iter().map(M::of).collect();
    let (ms, ls): (Vec<M>, Vec<usize>) = want.into_iter().unzip();
    if let Some(d) = diff_entries(&got, &ms) {
        fail!("not the messages of the pieces: {d}\norder {seen:?}\n{text}");
    }
    let lines: Vec<usize> = f.entries.iter().map(|e| e.linenum).collect();
    ensure!(lines == ls, "lines {lines:?}, expected {ls:?}\n{text}");
    Ok(())
}

fn some_text(s: &mut Src) -> String {
    match s.weighted(&[2, 5, 1]) {
        0 => soup(s, 40),
        1 => {
            let con = layout::content(s, 4);
            let st = Style::any(s);
            let mut ls: Vec<String> = layout::print(s, &con, st).render().split('\n').map(|x| x.to_string()).collect();
            let n = s.range(0, 4);
            disturb(s, &mut ls, n);
            ls.join("\n")
        }
        _ => {
            let n = s.size(8);
            let mut ls = vec![String::new(); n];
            disturb(s, &mut ls, n);
            disturb(s, &mut ls, n);
            ls.join("\n")
        }
    }
}

fn c35(s: &mut Src, c: &mut Ctx) -> Res {
    let text = some_text(s);
    c.key(&text);
    c.note(|| format!("text {text:?}"));
    let ls: Vec<&str> = text.split('\n').collect();
    match pofile(text.as_str()) {
        Ok(_) => {
            c.label("accepted");
            c.nontrivial(ls.len() >= 3);
            for i in 0..4 {
                let k = if i == 0 { ls.len() - 1 } else { s.below(ls.len() + 1) };
                let head = ls[..k].join("\n") + if s.bool() { "\n" } else { "" };
                if let Err(e) = pofile(head.as_str()) {
                    let m = e.to_string();
                    ensure!(location(&m).is_none(), "accepted, but its first {k} lines are rejected: {m}\n{text}");
                }
            }
        }
        Err(e) => {
            let m = e.to_string();
            let Some((n, _)) = location(&m) else {
                c.label("rejected without a line");
                return Ok(());
            };
            c.label("rejected");
            c.nontrivial(n > 1);
            ensure!(n >= 1 && n <= ls.len(), "the error names line {n} of {}: {m}\n{text}", ls.len());
            for i in 0..3 {
                let mut t = ls[..n].join("\n");
                if i > 0 {
                    t.push('\n');
                    t.push_str(&if i == 1 { some_text(s) } else { ls[n..].iter().rev().copied().collect::<Vec<_>>().join("\n") });
                }
                match pofile(t.as_str()) {
                    Ok(_) => fail!("rejected: {m}\n{text}\nbut with other lines after line {n} accepted:\n{t}"),
                    Err(e) => ensure!(e.to_string() == m, "rejected: {m}\n{text}\nbut with other lines after line {n}: {e}\n{t}"),
                }
            }
            let head = ls[..n - 1].join("\n");
            if let Err(e) = pofile(head.as_str()) {
                let k = e.to_string();
                ensure!(location(&k).is_none(), "rejected: {m}\nbut the lines before it: {k}\n{text}");
            }
        }
    }
    Ok(())
}

/// Whether the number is in the text, and not as a part of another one.
fn tells(text: &str, n: u64) -> bool {
    text.split(|c: char| !c.is_ascii_digit()).any(|w| w.parse() == Ok(n))
}

/// A fault of an MO image: what cannot be read, of which message.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    NoMagic,
    Magic(u32),
    Revision(u32),
    Header(usize),
    /// of the translations, in the offsets
    Table(bool, bool, usize),
    Text(bool, usize),
}

fn fault(s: &mut Src, n: usize) -> Fault {
    match s.below(if n > 0 { 6 } else { 4 }) {
        0 => Fault::NoMagic,
        1 => {
            let v = s.upto(u32::MAX as u64) as u32;
            Fault::Magic(if [mo::MAGIC, mo::MAGIC.swap_bytes()].contains(&v) { 0 } else { v })
        }
        2 => Fault::Revision(match s.below(3) {
            0 => s.range(2, 20) as u32,
            1 => *s.pick(&[0x10000, 0x10001, 0x01000000, u32::MAX, 256, 1 << 31]),
            _ => 2 + s.upto(u32::MAX as u64 - 2) as u32,
        }),
        3 => Fault::Header(s.range(1, 4)),
        4 => Fault::Table(s.bool(), s.bool(), s.below(n)),
        _ => Fault::Text(s.bool(), s.below(n)),
    }
}

fn damaged(s: &mut Src, built: &mo::Built, f: Fault) -> Vec<u8> {
    let (mut b, be) = (built.bytes.clone(), built.be);
    let len = b.len() as u32;
    match f {
        Fault::NoMagic => b.truncate(s.below(4)),
        Fault::Magic(v) => mo::put(&mut b, 0, v, false),
        Fault::Revision(v) => mo::put(&mut b, 4, v, be),
        Fault::Header(i) => b.truncate(4 * i + s.below(4)),
        Fault::Table(tr, off, i) => {
            let at = len - (8 * i + 4 * off as usize + s.below(4)) as u32;
            mo::put(&mut b, if tr { 16 } else { 12 }, at, be);
        }
        Fault::Text(tr, i) => {
            let at = if tr { built.t } else { built.o } + 8 * i;
            let off = mo::u32_at(&b, at + 4, be).unwrap_or(0);
            let old = mo::u32_at(&b, at, be).unwrap_or(0);
            if old > 0 && s.bool() {
                let v = if s.bool() { len - old + 1 + s.below(9) as u32 } else { u32::MAX - s.below(9) as u32 };
                mo::put(&mut b, at + 4, v, be);
            } else {
                let v = if s.bool() { len - off + 1 + s.below(9) as u32 } else { u32::MAX - s.below(9) as u32 };
                mo::put(&mut b, at, v, be);
            }
        }
    }
    b
}

fn c36(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[3, 3, 2]) {
        0 => {
            c.label("MO");
            let cat = gen::mo_catalog(s, 5, false);
            let mut es = cat.entries;
            es = gen::many(s, es, 400, |m, i| m.msgid = format!("{}{i}", m.msgid));
            es.truncate(3000);
            let meta = s.bool();
            let plan = mo::Plan::any(s);
            let built = mo::build(s, &pairs_of(if meta { Some(&cat.metadata) } else { None }, &es), plan);
            let f = fault(s, built.n);
            let mut g = fault(s, built.n);
            if let (true, Fault::Table(tr, off, i)) = (s.bool(), f) {
                g = match s.below(3) {
                    0 => Fault::Table(!tr, off, i),
                    1 => Fault::Table(tr, !off, i),
                    _ => Fault::Text(tr, i),
                }
            }
            if let (true, Fault::Text(tr, i)) = (s.bool(), f) {
                g = Fault::Text(!tr, i);
            }
            let (b, d) = (damaged(s, &built, f), damaged(s, &built, g));
            c.key(&b);
            c.note(|| format!("{f:?} in {} bytes {:02x?}", b.len(), &b[..b.len().min(400)]));
            c.nontrivial(true);
            let Err(e) = mofile(b.clone()) else { fail!("accepted with {f:?}") };
            let t = e.to_string();
            let same = |x: u64, y: u64, what: &str| -> Res {
                ensure!(x == y, "{what} {y} is reported as {x}: {t}");
                ensure!(tells(&t, y), "{what} {y} is not told: {t}");
                Ok(())
            };
            match (f, &e) {
                (Fault::NoMagic, IOError::ErrorReadingMagicNumber {}) => {}
                (Fault::Magic(v), IOError::IncorrectMagicNumber { magic_number_le, magic_number_be }) => {
                    same(*magic_number_le as u64, v as u64, "magic number")?;
                    same(*magic_number_be as u64, v.swap_bytes() as u64, "magic number in the other order")?;
                }
                (Fault::Revision(v), IOError::UnsupportedMORevisionNumber { version }) => same(*version as u64, v as u64, "revision")?,
                (Fault::Header(_) | Fault::Table(..) | Fault::Text(..), IOError::CorruptedMOData { context }) => {
                    ensure!(t.contains(context.as_str()) && !context.is_empty(), "the text {t:?} does not have {context:?}");
                    if let Fault::Table(_, _, i) | Fault::Text(_, i) = f {
                        ensure!(tells(&t, i as u64), "message {i} of {f:?} is not told: {t}");
                    }
                }
                (f, e) => fail!("{f:?} is reported as {e:?}"),
            }
            if f != g {
                let Err(x) = mofile(d) else { fail!("accepted with {g:?}") };
                ensure!(x != e && x.to_string() != t, "{f:?} and {g:?} are both reported as {t:?}");
            }
            ensure!(mofile(b) == Err(e), "not the same error again");
        }
        1 => {
            c.label("escape");
            let t = slashy(s);
            c.key(&t);
            c.note(|| format!("unescape {t:?}"));
            let Err(want) = unescape(&t) else { return Ok(()) };
            c.nontrivial(true);
            let Err(e) = escaping::unescape(&t) else { fail!("{t:?} is accepted") };
            let m = e.to_string();
            ensure!(m.contains(t.as_str()), "the error about {t:?} does not have it: {m:?}");
            match (&want, &e) {
                (Unesc::AtEnd, EscapingError::EscapeAtEndOfString { text }) => ensure!(*text == t, "{t:?} is reported as {text:?}"),
                (Unesc::Unknown(w), EscapingError::InvalidEscapedCharacter { text, character }) => {
                    ensure!(*text == t && character == w, "{w:?} in {t:?} is reported as {character:?} in {text:?}");
                    ensure!(m.replacen(t.as_str(), "", 1).contains(*w), "the error about {w:?} in {t:?} does not have it: {m:?}");
                }
                (w, e) => fail!("{w:?} in {t:?} is reported as {e:?}"),
            }
            // in one field of a message
            let mut p = POEntry::from("id");
            let k = s.below(8);
            let o = Some(t.clone());
            match k {
                0 => p.msgid = t.clone(),
                1 => p.msgstr = o,
                2 => p.msgctxt = o,
                3 => p.msgid_plural = o,
                4 => p.msgstr_plural = vec![String::new(), t.clone()],
                5 => p.previous_msgid = o,
                6 => p.previous_msgid_plural = o,
                _ => p.previous_msgctxt = o,
            }
            let got = p.unescaped();
            ensure!(got.as_ref().err() == Some(&e), "a message with {t:?}: {got:?}, expected {e:?}");
            // in a document
            if t.ends_with('\\') || t.contains(['"', '\n', '\r']) {
                return Ok(());
            }
            let q = |f: usize| if f == k { t.as_str() } else { "a" };
            let doc = format!(
                "msgid \"\"\nmsgstr \"\"\n\n#| msgctxt \"{}\"\n#| msgid \"{}\"\n#| msgid_plural \"{}\"\nmsgctxt \"{}\"\nmsgid \"{}\"\n{}\n",
                q(7),
                q(5),
                q(6),
                q(2),
                q(0),
                if k == 3 || k == 4 { format!("msgid_plural \"{}\"\nmsgstr[0] \"\"\nmsgstr[1] \"{}\"", q(3), q(4)) } else { format!("msgstr \"{}\"", q(1)) }
            );
            let Err(x) = pofile(doc.as_str()) else { fail!("accepted:\n{doc}") };
            let y = x.to_string();
            ensure!(y.contains(m.as_str()), "the error {y:?} does not have {m:?}\n{doc}");
            if let SyntaxError::BasicCustom { message, .. } = &x {
                ensure!(y.contains(message.as_str()), "the error {y:?} does not have {message:?}");
            }
        }
        _ => {
            c.label("PO");
            let w = match s.below(4) {
                0 => s.pick(&["msgstr", "msgid2", "Msgid", "msgctx", "obsolete", "msgid_plural2", "msgstr[0]", "="]).to_string(),
                1 => gen::text(s, 3),
                2 => s.upto(u64::MAX).to_string() + &s.upto(u64::MAX).to_string(),
                _ => format!("{}{}", s.pick(&["-", "x", "é", "1.", "0x", "+ ", "", " "]), s.upto(30)),
            };
            let w: String = w.chars().filter(|c| !c.is_whitespace() && !c.is_control() && !matches!(c, '"' | '[' | ']' | '\\' | '\u{feff}')).collect();
            let keyword = s.bool();
            let pad = if !keyword && s.one_in(4) { s.pick(&[" ", "  "]) } else { "" };
            let w = if !pad.is_empty() && w.parse::<usize>().is_err() && !w.is_empty() { format!("{}{w}{}", if s.bool() { pad } else { "" }, pad) } else { w };
            let (doc, line) = if keyword {
                if ["msgid", "msgctxt", "msgid_plural", ""].contains(&w.as_str()) {
                    return Ok(());
                }
                (format!("msgid \"\"\nmsgstr \"\"\n\n#| {w} \"x\"\nmsgid \"a\"\nmsgstr \"\"\n"), 4)
            } else {
                if w.parse::<usize>().map_or(false, |n| n <= 255) {
                    return Ok(());
                }
                (format!("msgid \"\"\nmsgstr \"\"\n\nmsgid \"a\"\nmsgid_plural \"\"\nmsgstr[{w}] \"\"\n"), 6)
            };
            c.key(&doc);
            c.note(|| format!("document\n{doc}"));
            c.nontrivial(true);
            let Err(e) = pofile(doc.as_str()) else { fail!("accepted:\n{doc}") };
            if s.one_in(30) {
                // the same in a file: where includes its path, as given
                c.label("PO file");
                let name = format!("{}{}", s.pick(&["", "./", "/", "//", ".//./"]), s.pick(&["x.po", "a b.po", " é", "x:1", "{}", "%s", "~", "*?", "A.PO", "x.po ", "ünï\u{0301}.po"]));
                let path = format!("{}/{name}", c.scratch.to_str().expect("scratch"));
                std::fs::write(&path, &doc).expect("scratch");
                let r = pofile(path.as_str());
                std::fs::remove_file(&path).expect("scratch");
                let Err(x) = r else { fail!("accepted in a file:\n{doc}") };
                let y = x.to_string();
                ensure!(y.contains(path.as_str()), "the error {y:?} does not have the path {path:?}");
                let (SyntaxError::Custom { message: m, line: l, index: i, .. }, SyntaxError::Custom { message: n, line: k, index: j, .. }) = (&x, &e) else {
                    fail!("{x:?} for a file, {e:?} for the text")
                };
                ensure!((m, l, i) == (n, k, j) && y.contains(m.as_str()) && tells(&y.replacen(path.as_str(), "", 1), *l as u64), "{y:?} for a file, {e} for the text");
            }
            let t = e.to_string();
            let SyntaxError::Custom { message, line: l, index, .. } = &e else { fail!("reported as {e:?}\n{doc}") };
            ensure!(message.contains(w.as_str()), "the message {message:?} does not have {w:?}\n{doc}");
            ensure!(*l == line, "reported at line {l}, expected {line}\n{doc}");
            ensure!(t.contains(message.as_str()) && tells(&t, *l as u64) && tells(&t, *index as u64), "the text {t:?} does not have line {l}, index {index} and {message:?}");
        }
    }
    Ok(())
}
