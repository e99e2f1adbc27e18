//! Reading PO documents: C01-C05, C24, C25.
use crate::alloc::peak_of;
use crate::engine::*;
use crate::gen;
use crate::layout::{self, Content, Doc, Line, Printer, Style, K};
use crate::mo;
use crate::model::*;
use rspolib::{mofile, pofile, FileOptions};
use std::fs;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is a catalog (header, metadata, up to 12 messages with any mix of fields) and a wrap width; non-trivial if it has a message and some string with an escaped, control or non-ASCII character or a string long enough to be wrapped.",
            assumptions: &[
                "comment lines fit the wrap width and have no whitespace at their ends (longer ones are wrapped: C08)",
                "flags are trimmed and without commas; occurrence paths have no whitespace, and no colon if there is a line number (a known finding) or they would end in one; metadata keys have no colon or newline, values are trimmed",
                "an absent translation is read back as the empty one, the singular translation of a message with plural forms is not written",
            ],
            case: c01,
        },
        Prop {
            id: "C02",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is the content of a document and a layout for it (indentation, spacing, string splits, blank lines, line ends, byte order mark, interleaving of comment lines, order of plural forms); non-trivial if the document has a message and takes at least one of these liberties.",
            assumptions: &["whether previous ids in '#~|' lines are kept is not judged; no comments between the strings of one message, no '#text' comments"],
            case: c02,
        },
        Prop {
            id: "C03",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is a document in any layout, possibly with a few lines deleted, repeated, swapped or edited, and a wrap width; non-trivial if it is accepted and has a message.",
            assumptions: &[
                "blank lines at the end of the header, occurrences and previous ids of obsolete messages, and where long comments are wrapped may change the first time",
            ],
            case: c03,
        },
        Prop {
            id: "C04",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is an arbitrary input: random text over PO fragments, random bytes, a document with random edits, a document cut anywhere, a document with invalid UTF-8 put in, or a document with a well-formed one after or before it; non-trivial if it is at least 10 bytes long and not accepted as an empty catalog.",
            assumptions: &["memory bound: 64 KiB + 64 times the input length + 16 KiB per plural form, live bytes counted by the allocator"],
            case: c04,
        },
        Prop {
            id: "C05",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is a well-formed document, a fault class and a place for it; non-trivial if the faulty line is not the first line of the document.",
            assumptions: &["the column of an unescaped quote is checked on unindented lines with one space before the string, of non-obsolete messages"],
            case: c05,
        },
        Prop {
            id: "C24",
            quick: 625_000,
            thorough: 5_000_000,
            rule: "A case is a document with or without a metadata block at any position, its items spaced freely, and the MO file with the same block; non-trivial if the block has items and there is a message.",
            assumptions: &["every line of the block is an item, keys are distinct"],
            case: c24,
        },
        Prop {
            id: "C25",
            quick: 625_000,
            thorough: 5_000_000,
            rule: "A case is a document in any layout; non-trivial if it has at least two messages.",
            assumptions: &["lines that say nothing (an empty '#.', '#:' or '#,') do not occur"],
            case: c25,
        },
    ]
}

fn special(t: &str) -> bool {
    t.len() > 60 || t.chars().any(|c| !c.is_ascii_graphic() && c != ' ' || c == '"' || c == '\\')
}

fn has_special(m: &M) -> bool {
    special(&m.msgid)
        || m.msgstr.as_deref().map_or(false, special)
        || m.msgctxt.as_deref().map_or(false, special)
        || m.msgid_plural.as_deref().map_or(false, special)
        || m.msgstr_plural.iter().any(|x| special(x))
}

fn label_messages(c: &mut Ctx, es: &[M]) {
    for e in es {
        if e.obsolete {
            c.label("obsolete");
        }
        if !e.msgstr_plural.is_empty() {
            c.label("plural");
        }
        if e.msgctxt.is_some() {
            c.label("context");
        }
        if e.previous_msgid.is_some() || e.previous_msgid_plural.is_some() || e.previous_msgctxt.is_some() {
            c.label("previous ids");
        }
        if e.comment.is_some() || e.tcomment.is_some() {
            c.label("comments");
        }
        if !e.occurrences.is_empty() {
            c.label("occurrences");
        }
        if !e.flags.is_empty() {
            c.label("flags");
        }
    }
}

fn c01(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cat = gen::catalog(s, 12);
    let ww = gen::width(s);
    gen::fit_comments(&mut cat, ww);
    // a known finding: read back as a path alone
    let mut want = cat.as_written();
    if s.one_in(200) {
        let p = gen::path(s);
        let (p, l) = (gen::colons(s, &p), s.upto(2000).to_string());
        let live: Vec<usize> = (0..cat.entries.len()).filter(|i| !cat.entries[*i].obsolete).collect();
        if let Some(i) = live.first() {
            cat.entries[*i].occurrences.push((p.clone(), l.clone()));
            want.entries[0].occurrences.push((p, l));
        }
    }
    c.key(&(&cat, ww));
    c.note(|| format!("wrap width {ww}, catalog {}", show_cat(&cat)));
    c.nontrivial(cat.entries.iter().any(has_special));
    label_messages(c, &cat.entries);
    let file = cat.po(ww);
    let text = file.to_string();
    c.note(|| format!("text:\n{text}"));
    let got = match pofile((text.as_str(), ww)) {
        Ok(f) => Cat::of(&f),
        Err(e) => fail!("the written text is rejected: {e}\n{text}"),
    };
    if let Some(d) = diff(&got, &want) {
        if let Some(o) = want.entries.iter_mut().flat_map(|e| &mut e.occurrences).find(|(p, l)| p.contains(':') && !l.is_empty()) {
            *o = (format!("{}:{}", o.0, o.1), String::new());
            if diff(&got, &want).is_none() {
                c.known.push("an occurrence whose path has a colon is read back with its line number as a part of the path".into());
                return Ok(());
            }
        }
        fail!("read back: {d}\ntext:\n{text}");
    }
    Ok(())
}

fn c02(s: &mut Src, c: &mut Ctx) -> Res {
    let con = layout::content(s, 8);
    let st = Style::any(s);
    let doc = layout::print(s, &con, st);
    let text = doc.render();
    c.key(&text);
    c.note(|| format!("document: {text:?}"));
    c.nontrivial(!con.entries.is_empty() && (st.indent || st.blank || st.split || st.interleave || st.eol > 0 || doc.bom));
    label_messages(c, &con.entries);
    if doc.bom {
        c.label("byte order mark");
    }
    if st.eol > 0 {
        c.label("CRLF");
    }
    let mut want = con.cat();
    let mut got = match pofile(text.as_str()) {
        Ok(f) => Cat::of(&f),
        Err(e) => fail!("a well-formed document is rejected: {e}\n{text}"),
    };
    if text.contains("\n#~|") && diff(&got, &want).is_some() {
        // whether they are kept is not judged
        for e in want.entries.iter_mut().chain(&mut got.entries).filter(|e| e.obsolete) {
            e.previous_msgid = None;
            e.previous_msgid_plural = None;
            e.previous_msgctxt = None;
        }
    }
    if let Some(d) = diff(&got, &want) {
        fail!("read: {d}\ndocument:\n{text}");
    }
    Ok(())
}

/// Random edits of lines that keep most of the document readable.
pub fn disturb(s: &mut Src, lines: &mut Vec<String>, n: usize) {
    for _ in 0..n {
        if lines.is_empty() {
            return;
        }
        let i = s.below(lines.len());
        match s.weighted(&[3, 3, 3, 3, 3, 2]) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                let j = s.below(lines.len() + 1);
                lines.insert(j, l);
            }
            2 => {
                let j = s.below(lines.len());
                lines.swap(i, j);
            }
            3 => {
                let l = s
                    .pick(&[
                        "#", "# x", "#. y", "#: a.c:1 b", "#: :", "#: a:b:1", "#, fuzzy", "#, a,,b", "#, ,", "#| msgid \"p\"", "#~| msgid \"p\"", "\"more\"", "msgid \"\"", "msgstr \"\"", "## z", "##",
                        "msgstr[1] \"q\"", "msgid_plural \"r\"", "msgctxt \"\"", "#~ msgid \"o\"", "#~ msgstr \"o\"", "#~", "#~ # c", "#:", "#.", "  ", "#. \u{a0}", "#\tt",
                        "#: c:\\x.c:3", "#: a: b:5", "msgstr[3] \"\"", "#, fuzzy, c-format,",
                    ])
                    .to_string();
                lines.insert(i, l);
            }
            4 => {
                let cs: Vec<char> = lines[i].chars().collect();
                let k = s.below(cs.len() + 1);
                let mut t: String = cs[..k].iter().collect();
                match s.below(3) {
                    0 => {
                        let extra = *s.pick(&[" ", "\"", "\\", "#", "é", "x", ":", ",", "\u{a0}", "\\n", "\t"]);
                        t.push_str(extra);
                        t.extend(&cs[k..]);
                    }
                    1 => t.extend(cs.get(k + 1..).unwrap_or(&[])),
                    _ => {}
                }
                lines[i] = t;
            }
            _ => {
                let j = s.below(lines.len());
                let l = lines.remove(i);
                lines.insert(j.min(lines.len()), l);
            }
        }
    }
}

fn squash(t: &Option<String>) -> String {
    t.as_deref().unwrap_or("").chars().filter(|c| !c.is_whitespace()).collect()
}

fn c03(s: &mut Src, c: &mut Ctx) -> Res {
    let con = layout::content(s, 6);
    let st = Style::any(s);
    let doc = layout::print(s, &con, st);
    let mut lines: Vec<String> = doc.render().split('\n').map(|x| x.to_string()).collect();
    let n = s.weighted(&[3, 2, 2, 1]);
    disturb(s, &mut lines, n);
    let text = lines.join("\n");
    let ww = gen::width(s);
    c.key(&(&text, ww));
    c.note(|| format!("wrap width {ww}, document: {text:?}"));
    let f1 = match pofile((text.as_str(), ww)) {
        Ok(f) => f,
        Err(_) => {
            c.label("rejected");
            return Ok(());
        }
    };
    c.label(if n == 0 { "accepted, intact" } else { "accepted, edited" });
    c.nontrivial(!f1.entries.is_empty());
    let t1 = f1.to_string();
    let f2 = match pofile((t1.as_str(), ww)) {
        Ok(f) => f,
        Err(e) => fail!("accepted, but what is written for it is rejected: {e}\ndocument:\n{text}\nwritten:\n{t1}"),
    };
    // same content
    let (mut a, mut b) = (Cat::of(&f1).as_written(), Cat::of(&f2).as_written());
    for x in [&mut a, &mut b] {
        for e in &mut x.entries {
            e.comment = Some(squash(&e.comment));
            e.tcomment = Some(squash(&e.tcomment));
        }
    }
    if let Some(d) = diff(&b, &a) {
        fail!("after saving and loading: {d}\ndocument:\n{text}\nwritten:\n{t1}");
    }
    // stable text
    let t2 = f2.to_string();
    let lost = f1.entries.iter().any(|e| {
        e.obsolete && (e.previous_msgid.is_some() || e.previous_msgid_plural.is_some() || e.previous_msgctxt.is_some())
    });
    if lost {
        // their previous ids are not read back, so the next text lacks them
        let f3 = pofile((t2.as_str(), ww)).map_err(|e| format!("second text rejected: {e}\n{t2}"))?;
        let t3 = f3.to_string();
        ensure!(t2 == t3, "text changes again:\n{t2}\nthen:\n{t3}");
    } else {
        ensure!(t1 == t2, "text changes when saved again:\n{t1}\nthen:\n{t2}");
    }
    Ok(())
}

const BITS: &[&str] = &[
    "msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[", "]", "[", "\"", "\"\"", " ", "\n", "\n", "\n\n", "#", "# ", "#.", "#. ", "#:", "#: ", "#,", "#, ", "#|", "#| ", "#~", "#~ ", "#~|", "#~| ", "##", "\\",
    "\\n", "\\\"", "\t", "\r", "\r\n", "a", "é", "中", "\u{feff}", "\u{a0}", "\u{2028}", "\u{85}", "\u{0}", "fuzzy", ":", "1", "99999999999999999999", "4000000000", "-1", "msgid \"a\"\n", "msgstr \"b\"\n",
    "msgid \"\"\nmsgstr \"A: b\\n\"\n", "\"x\"\n", "#~ msgid \"o\"\n", "#| msgid \"o\"\n", "msgstr[0] \"x\"\n", "msgstr[1] \"\"\n", "\u{b}", "\u{c}", ",",
    "msgstr[255] \"\"\n", "msgstr[510] \"x\"\n", "msgstr[65536] \"\"\n", "msgstr[99999999] \"x\"\n", "msgstr[4294967296] \"x\"\n", "msgid_plural \"p\"\n",
];

pub fn soup(s: &mut Src, max: usize) -> String {
    let n = s.size(max);
    (0..n).map(|_| *s.pick(BITS)).collect()
}

fn well_formed(s: &mut Src) -> (Content, String) {
    let con = layout::content(s, 4);
    let st = Style::any(s);
    let d = layout::print(s, &con, st);
    (con, d.render())
}

fn po_of_bytes(b: &[u8]) -> Result<rspolib::POFile, rspolib::errors::SyntaxError> {
    pofile(b.to_vec())
}

/// A form may be up to 255 ahead of those before it, which costs 16 KiB.
fn budget(b: &[u8]) -> usize {
    (64 << 10) + 64 * b.len() + (16 << 10) * b.windows(7).filter(|w| w == b"msgstr[").count()
}

fn c04(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[4, 2, 4, 2, 3, 3, 3, 1]) {
        0 => {
            let t = soup(s, 60);
            c.label("fragments");
            any_input(s, c, t.into_bytes())
        }
        1 => {
            let n = s.size(200);
            let b = (0..n).map(|_| s.upto(255) as u8).collect();
            c.label("bytes");
            any_input(s, c, b)
        }
        2 => {
            let (_, t) = well_formed(s);
            let mut ls: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
            let n = s.range(1, 6);
            disturb(s, &mut ls, n);
            c.label("edited document");
            any_input(s, c, ls.join("\n").into_bytes())
        }
        3 => {
            let (_, t) = well_formed(s);
            let mut b = t.into_bytes();
            let k = s.below(b.len() + 1);
            b.truncate(k);
            c.label("cut document");
            any_input(s, c, b)
        }
        4 => {
            // invalid UTF-8 anywhere is an error, whatever it does to the syntax
            let (_, t) = well_formed(s);
            let mut b = t.into_bytes();
            let bad: &[&[u8]] = &[b"\xff", b"\xc3\x28", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"\x80"];
            let x = *s.pick(bad);
            let mut k = s.below(b.len() + 1);
            // not inside of a character, which could complete it
            while k < b.len() && (b[k] & 0xc0) == 0x80 {
                k += 1;
            }
            for (i, y) in x.iter().enumerate() {
                b.insert(k + i, *y);
            }
            if std::str::from_utf8(&b).is_ok() {
                return Ok(());
            }
            c.label("invalid UTF-8");
            c.key(&b);
            c.nontrivial(b.len() >= 10);
            c.note(|| format!("bytes {:?}", String::from_utf8_lossy(&b)));
            if po_of_bytes(&b).is_ok() {
                fail!("input that is not UTF-8 is accepted: {:?}", String::from_utf8_lossy(&b));
            }
            let p = c.scratch.join(gen::file_name(s));
            fs::write(&p, &b).expect("scratch");
            let r = pofile(p.to_str().unwrap());
            let _ = fs::remove_file(&p);
            if r.is_ok() {
                fail!("a file that is not UTF-8 is accepted: {:?}", String::from_utf8_lossy(&b));
            }
            Ok(())
        }
        5 => {
            // anything followed by a well-formed message: if accepted, the
            // message is there
            let head = match s.weighted(&[2, 3]) {
                0 => soup(s, 30),
                _ => {
                    let (_, t) = well_formed(s);
                    let mut ls: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
                    let n = s.range(0, 3);
                    disturb(s, &mut ls, n);
                    ls.join("\n")
                }
            };
            let mut e = layout::doc_message(s);
            e.tcomment = None;
            let mut lines = vec![];
            let st = Style::PLAIN;
            {
                let mut p = Printer { s, st, out: &mut lines, owner: None };
                let sep = M { msgid: "separator".into(), msgstr: Some("x".into()), ..Default::default() };
                p.message(&sep);
                p.separator();
                p.message(&e);
            }
            let tail = Doc { bom: false, lines, final_eol: true }.render();
            let text = format!("{head}\n{tail}");
            c.label("text before a message");
            c.key(&text);
            c.nontrivial(text.len() >= 10);
            c.note(|| format!("document {text:?}"));
            if let Ok(f) = pofile(text.as_str()) {
                c.label("accepted");
                match f.entries.last() {
                    Some(l) if M::of(l) == e => {}
                    l => fail!("accepted, but its last message is\n  {:?}\nnot\n  {}\ndocument:\n{text}", l.map(|l| short(&M::of(l))), short(&e)),
                }
                ensure!(
                    f.entries.len() >= 2 && f.entries[f.entries.len() - 2].msgid.ends_with("separator"),
                    "accepted, but the message before the last one is missing\ndocument:\n{text}"
                );
            }
            Ok(())
        }
        6 => {
            // a well-formed document followed by anything: if accepted, all
            // its messages but the last one are there
            let (con, t) = well_formed(s);
            let tail = soup(s, 30);
            let text = format!("{t}\n{tail}");
            c.label("text after a document");
            c.key(&text);
            c.nontrivial(text.len() >= 10);
            c.note(|| format!("document {text:?}"));
            if con.block.is_none() {
                return any_input(s, c, text.into_bytes());
            }
            if let Ok(f) = pofile(text.as_str()) {
                c.label("accepted");
                let got: Vec<M> = f.entries.iter().map(M::of).collect();
                let n = con.entries.len().saturating_sub(1);
                if let Some(d) = diff_entries(&got[..n.min(got.len())], &con.entries[..n]) {
                    fail!("accepted, but {d}\ndocument:\n{text}");
                }
                if n < con.entries.len() {
                    ensure!(got.len() > n && got[n].msgid.starts_with(&con.entries[n].msgid), "accepted, but message {n} is not there\ndocument:\n{text}");
                }
            }
            Ok(())
        }
        _ => {
            // long inputs, where superfluous memory shows
            let unit = match s.below(4) {
                0 => soup(s, 12),
                1 => "msgid \"a\"\nmsgstr \"b\"\n".to_string(),
                2 => "\"continued \"\n".to_string(),
                _ => "# comment\n".to_string(),
            };
            let k = s.range(1, 800);
            let pre = *s.pick(&["", "msgid \"x\"\nmsgstr \"\"\n", "#\n"]);
            c.label("long");
            let t = format!("{pre}{}", unit.repeat(k));
            any_input(s, c, t.into_bytes())
        }
    }
}

fn any_input(s: &mut Src, c: &mut Ctx, b: Vec<u8>) -> Res {
    c.key(&b);
    c.note(|| format!("input {:?}", clip(&String::from_utf8_lossy(&b), 600)));
    let input = b.clone();
    let (r, peak) = peak_of(|| po_of_bytes(&input));
    ensure!(peak <= budget(&b), "reading {} bytes takes {peak} bytes of memory", b.len());
    c.nontrivial(b.len() >= 10 && r.as_ref().map_or(true, |f| !f.entries.is_empty()));
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    let from_bytes = r.map(|f| (Cat::of(&f), f.entries.iter().map(|e| e.linenum).collect::<Vec<_>>()));
    if let Ok(t) = std::str::from_utf8(&b) {
        let from_text = pofile(t).map(|f| (Cat::of(&f), f.entries.iter().map(|e| e.linenum).collect::<Vec<_>>()));
        let same = match (&from_text, &from_bytes) {
            (Ok(x), Ok(y)) => x == y,
            (Err(x), Err(y)) => x.to_string() == y.to_string(),
            _ => false,
        };
        ensure!(
            same,
            "text and the same bytes are read differently: {:?} / {:?}",
            brief(&from_text),
            brief(&from_bytes)
        );
    } else {
        ensure!(from_bytes.is_err(), "input that is not UTF-8 is accepted");
    }
    let p = c.scratch.join(gen::file_name(s));
    fs::write(&p, &b).expect("scratch");
    let from_file = pofile(p.to_str().unwrap()).map(|f| (Cat::of(&f), f.entries.iter().map(|e| e.linenum).collect::<Vec<_>>()));
    let _ = fs::remove_file(&p);
    match (&from_file, &from_bytes) {
        (Ok(x), Ok(y)) => ensure!(x == y, "a file and its bytes are read differently: {:?} / {:?}", brief(&from_file), brief(&from_bytes)),
        (Err(_), Err(_)) => {}
        _ => fail!("a file and its bytes are read differently: {:?} / {:?}", brief(&from_file), brief(&from_bytes)),
    }
    Ok(())
}

fn brief(r: &Result<(Cat, Vec<usize>), rspolib::errors::SyntaxError>) -> String {
    match r {
        Ok((c, l)) => format!("{} lines {l:?}", show_cat(c)),
        Err(e) => e.to_string(),
    }
}

/// Position of the string of a line: (start, end) chars of what is between
/// the quotes.
fn inner(l: &str) -> Option<(usize, usize)> {
    let cs: Vec<char> = l.chars().collect();
    let a = cs.iter().position(|c| *c == '"')?;
    let b = cs.iter().rposition(|c| *c == '"')?;
    if b > a {
        Some((a + 1, b))
    } else {
        None
    }
}

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

fn cut(cs: &[char], a: usize, b: usize) -> String {
    cs[a..b].iter().collect()
}

fn c05(s: &mut Src, c: &mut Ctx) -> Res {
    let mut con = layout::content(s, 5);
    if con.entries.is_empty() {
        let mut e = layout::doc_message(s);
        if con.block.is_none() {
            e.tcomment = None;
        }
        con.entries.push(e);
    }
    let mut st = Style::any(s);
    st.indent = s.one_in(4);
    let mut doc = layout::print(s, &con, st);
    let off = con.block.is_some() as usize;
    let obsolete = |doc: &Doc, i: usize| doc.lines[i].owner.map_or(false, |o| o >= off && con.entries[o - off].obsolete);
    let find = |doc: &Doc, f: &dyn Fn(&Line) -> bool| -> Vec<usize> { (0..doc.lines.len()).filter(|i| f(&doc.lines[*i])).collect() };
    let stringy = |l: &Line| matches!(l.kind, K::Ct | K::Mi | K::Mp | K::Ms | K::Mx | K::Cont | K::Prev(_) | K::PrevCont);

    let mut column: Option<usize> = None;
    let line: usize; // 0-based
    let what: &'static str;
    let class = s.below(9);
    // invalid UTF-8 to be put into that line
    let mut bad: Option<&[u8]> = None;
    match class {
        0 => {
            what = "unescaped quote";
            let c = find(&doc, &stringy);
            line = *s.pick(&c);
            let cs = chars(&doc.lines[line].text);
            let (a, b) = inner(&doc.lines[line].text).unwrap();
            // positions that are not inside of an escape
            let mut ok = vec![];
            let mut i = a;
            while i <= b {
                ok.push(i);
                i += if i < b && cs[i] == '\\' { 2 } else { 1 };
            }
            let k = *s.pick(&ok);
            doc.lines[line].text = format!("{}\"{}", cut(&cs, 0, k), cut(&cs, k, cs.len()));
            if !st.indent && !obsolete(&doc, line) {
                column = Some(k + 1);
            }
        }
        1 | 2 => {
            let close = class == 2;
            what = if close { "missing closing quote" } else { "missing opening quote" };
            let c: Vec<usize> = find(&doc, &stringy)
                .into_iter()
                .filter(|i| {
                    let l = &doc.lines[*i];
                    if close || !matches!(l.kind, K::Cont | K::PrevCont) {
                        return true;
                    }
                    // without its quote it must not look like something else
                    let (a, b) = inner(&l.text).unwrap();
                    let t = cut(&chars(&l.text), a, b);
                    match t.chars().next() {
                        None => true,
                        Some(x) => x.is_alphanumeric() && !t.starts_with("msg"),
                    }
                })
                .collect();
            if c.is_empty() {
                return Ok(());
            }
            line = *s.pick(&c);
            let cs = chars(&doc.lines[line].text);
            let (a, b) = inner(&doc.lines[line].text).unwrap();
            let k = if close { b } else { a - 1 };
            doc.lines[line].text = format!("{}{}", cut(&cs, 0, k), cut(&cs, k + 1, cs.len()));
        }
        3 => {
            what = "unknown keyword";
            if s.bool() {
                let c = find(&doc, &|l| matches!(l.kind, K::Ct | K::Mi | K::Mp | K::Ms));
                line = *s.pick(&c);
                let t = doc.lines[line].text.clone();
                let kw = match doc.lines[line].kind {
                    K::Ct => "msgctxt",
                    K::Mi => "msgid",
                    K::Mp => "msgid_plural",
                    _ => "msgstr",
                };
                let new = *s.pick(&["msgidx", "MSGID", "foo", "msgid_plurals", "msg", "msgctx", "msgstrs", "mögid", "msgid:"]);
                doc.lines[line].text = t.replacen(kw, new, 1);
            } else {
                line = s.below(doc.lines.len() + 1);
                let t = s.pick(&["junk", "msgid", "msgstr", "junk \"x\"", "x", "é é", "\\n", "msgctxt", "=", "msgstrx \"a\""]).to_string();
                doc.lines.insert(line, Line { text: t, kind: K::Noise, owner: None, crlf: false });
            }
        }
        4 => {
            what = "bad plural index";
            let c = find(&doc, &|l| l.kind == K::Mx);
            if c.is_empty() {
                return Ok(());
            }
            line = *s.pick(&c);
            let t = doc.lines[line].text.clone();
            let a = t.find('[').unwrap();
            let b = t.find(']').unwrap();
            let bad = *s.pick(&["[x]", "[]", "[-1]", "[1.0]", "[99999999999999999999999]", "[0", "[é]", "[0x1]", "[1a]"]);
            doc.lines[line].text = format!("{}{}{}", &t[..a], bad, &t[b + 1..]);
        }
        5 => {
            what = "bad previous-message line";
            // where such a line may stand: before the first line of an item
            let o = s.below(con.entries.len() + off);
            line = doc.first_line(o) - 1;
            let t = s.pick(&["#|", "#| foo \"x\"", "#| msgid", "#| msgid x", "#| msgstr \"x\"", "#| x", "#| msgid \"x", "#| msgid x\"", "#| msgctxt \"\"\"", "#| msgstr[0] \"x\""]).to_string();
            doc.lines.insert(line, Line { text: t, kind: K::Noise, owner: None, crlf: false });
        }
        6 => {
            what = "field out of order";
            let kinds = [
                (K::Mi, "msgid \"x\""),
                (K::Mi, "msgctxt \"x\""),
                (K::Ms, "msgid_plural \"x\""),
                (K::Ms, "msgstr \"x\""),
                (K::Ms, "msgstr[0] \"x\""),
                (K::Mx, "msgid_plural \"x\""),
                (K::Mx, "msgstr \"x\""),
                (K::Ct, "msgctxt \"x\""),
                (K::Ct, "msgstr \"x\""),
                (K::Ct, "msgstr[0] \"x\""),
                (K::Ct, "msgid_plural \"x\""),
                (K::Mp, "msgid \"x\""),
                (K::Mp, "msgid_plural \"x\""),
                (K::Mp, "msgctxt \"x\""),
                (K::Fl, "msgstr \"x\""),
                (K::Oc, "msgstr[0] \"x\""),
                (K::Gc, "msgstr \"x\""),
            ];
            let (k, t) = *s.pick(&kinds);
            let c = find(&doc, &|l| l.kind == k);
            if c.is_empty() {
                // or at the very beginning
                line = 0;
                let t = *s.pick(&["msgstr \"x\"", "msgid_plural \"x\"", "msgstr[0] \"x\"", "\"x\""]);
                doc.lines.insert(0, Line { text: t.to_string(), kind: K::Noise, owner: None, crlf: false });
            } else {
                let at = *s.pick(&c);
                let t = if obsolete(&doc, at) && s.bool() && matches!(k, K::Mi | K::Ms | K::Mx | K::Ct | K::Mp) { format!("#~ {t}") } else { t.to_string() };
                line = at + 1;
                doc.lines.insert(line, Line { text: t, kind: K::Noise, owner: None, crlf: false });
            }
        }
        7 => {
            what = "invalid UTF-8";
            line = s.below(doc.lines.len());
            bad = Some(*s.pick(&[b"\xff" as &[u8], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"\x80"]));
        }
        _ => {
            what = "continuation of nothing";
            let c = find(&doc, &|l| matches!(l.kind, K::Tc | K::Gc | K::Oc | K::Fl | K::Header));
            if c.is_empty() {
                return Ok(());
            }
            line = *s.pick(&c) + 1;
            doc.lines.insert(line, Line { text: "\"x\"".to_string(), kind: K::Noise, owner: None, crlf: false });
        }
    }
    // a final line without line end must not merge with nothing
    let text = doc.render();
    c.label(what);
    c.key(&text);
    c.nontrivial(line > 0);
    let number = line + 1;
    c.note(|| format!("{what} in line {number}{}: {text:?}", column.map_or(String::new(), |k| format!(" column {k}"))));
    let judge = |msg: &str| -> Res {
        let (n, ix) = match location(msg) {
            Some(x) => x,
            None => fail!("{what} in line {number}: the error names no line: {msg}"),
        };
        ensure!(n == number, "{what} in line {number}: the error names line {n}: {msg}\n{text}");
        if let Some(k) = column {
            ensure!(ix == k, "{what} in line {number}, column {k}: the error names column {ix}: {msg}\n{text}");
        }
        Ok(())
    };
    let mut bytes = text.clone().into_bytes();
    match bad {
        Some(b) => {
            // at the beginning of the line, or at its end
            let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(k, _)| k + 1)).collect();
            let at = match starts.get(number) {
                _ if s.bool() => starts[number - 1],
                Some(next) => next - 1,
                None => bytes.len(),
            };
            bytes.splice(at..at, b.iter().copied());
        }
        None => match pofile(text.as_str()) {
            Ok(_) => fail!("{what} in line {number} is accepted:\n{text}"),
            Err(e) => {
                let m = e.to_string();
                judge(&m)?;
                ensure!(!m.contains(" in file "), "the error mentions a file, but none was read: {m}");
            }
        },
    }
    match pofile(bytes.clone()) {
        Ok(_) => fail!("{what} in line {number} is accepted from bytes:\n{text}"),
        Err(e) => {
            let m = e.to_string();
            judge(&m)?;
            ensure!(!m.contains(" in file "), "the error mentions a file, but none was read: {m}");
        }
    }
    let p = c.scratch.join(gen::file_name(s));
    fs::write(&p, &bytes).expect("scratch");
    let name = gen::spell(s, &p);
    match pofile(name.as_str()) {
        Ok(_) => fail!("{what} in line {number} is accepted from a file:\n{text}"),
        Err(e) => {
            let m = e.to_string();
            judge(&m)?;
            ensure!(m.contains(&name), "the error does not mention the file: {m}");
        }
    }
    let _ = fs::remove_file(&p);
    Ok(())
}

pub fn location(m: &str) -> Option<(usize, usize)> {
    let a = m.find(" at line ")? + 9;
    let r = &m[a..];
    let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
    let r = &r[n.len()..];
    let b = r.find("(index ")? + 7;
    let ix: String = r[b..].chars().take_while(|c| c.is_ascii_digit()).collect();
    Some((n.parse().ok()?, ix.parse().ok()?))
}

fn c24(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.size(4);
    let mut entries: Vec<M> = (0..n).map(|_| layout::doc_message(s)).collect();
    // some messages with an empty id but a context
    for e in &mut entries {
        if s.one_in(4) {
            e.msgid = String::new();
            e.msgctxt = Some(if s.bool() { String::new() } else { gen::anytext(s) });
        }
        e.tcomment = None;
    }
    let block = if s.weighted(&[1, 4]) == 1 { Some(layout::block(s)) } else { None };
    let sep: Vec<(String, String)> = (0..8)
        .map(|_| (s.pick(&[" ", "", "  ", "\t", " \u{a0}"]).to_string(), s.pick(&["", "", " ", "\t", "\r"]).to_string()))
        .collect();
    let pos = match s.weighted(&[2, 2]) {
        0 => 0,
        _ => s.below(entries.len() + 1),
    };
    let st = Style::any(s);
    let mut lines = vec![];
    {
        let mut p = Printer { s, st, out: &mut lines, owner: None };
        for i in 0..=entries.len() {
            if i == pos {
                if let Some(b) = &block {
                    let m = M { msgstr: Some(b.text(&sep)), flags: b.flags.clone(), ..Default::default() };
                    p.message(&m);
                    p.separator();
                }
            }
            if i < entries.len() {
                p.message(&entries[i]);
                p.separator();
            }
        }
    }
    let text = Doc { bom: false, lines, final_eol: true }.render();
    c.key(&text);
    c.note(|| format!("document: {text:?}"));
    c.nontrivial(block.as_ref().map_or(false, |b| !b.items.is_empty()) && !entries.is_empty());
    if pos > 0 && block.is_some() {
        c.label("block not first");
    }
    if entries.iter().any(|e| e.msgid.is_empty()) {
        c.label("empty id with context");
    }
    if block.is_none() {
        c.label("no block");
    }
    let want = Content { header: None, block: block.clone(), entries: entries.clone() }.cat();
    let f = match pofile(text.as_str()) {
        Ok(f) => f,
        Err(e) => fail!("rejected: {e}\n{text}"),
    };
    if let Some(d) = diff(&Cat::of(&f), &want) {
        fail!("read: {d}\ndocument:\n{text}");
    }
    // the same block in an MO file
    let mut msgs: Vec<Mo> = vec![];
    for e in &entries {
        let m = mo_of_m(e);
        let plain = |t: &Option<String>| t.as_ref().map_or(true, |t| !t.contains(['\0', '\u{4}']));
        if plain(&Some(m.msgid.clone()))
            && plain(&m.msgctxt)
            && m.msgid_plural.is_none()
            && m.msgstr_plural.is_empty()
            && plain(&m.msgstr)
            && !msgs.iter().any(|x| x.key() == m.key())
        {
            msgs.push(m);
        }
    }
    msgs.sort_by(|a, b| a.key().as_bytes().cmp(b.key().as_bytes()));
    let mut pairs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if let Some(b) = &block {
        pairs.push((vec![], b.text(&sep).into_bytes()));
    }
    pairs.extend(msgs.iter().map(|m| (mo::original_bytes(m), mo::translation_bytes(m))));
    let plan = mo::Plan::any(s);
    let built = mo::build(s, &pairs, plan);
    let g = match mofile(FileOptions::from(built.bytes)) {
        Ok(f) => f,
        Err(e) => fail!("MO file rejected: {e}"),
    };
    let wantmo = MoCat { metadata: want.metadata, entries: msgs };
    if let Some(d) = diff_mo(&MoCat::of(&g).canon(), &wantmo.canon()) {
        fail!("MO file: {d}");
    }
    Ok(())
}

fn c25(s: &mut Src, c: &mut Ctx) -> Res {
    let con = layout::content(s, 8);
    let mut st = Style::any(s);
    st.noise = false;
    let doc = layout::print(s, &con, st);
    let text = doc.render();
    c.key(&text);
    c.note(|| format!("document: {text:?}"));
    c.nontrivial(con.entries.len() >= 2);
    let f = match pofile(text.as_str()) {
        Ok(f) => f,
        Err(e) => fail!("rejected: {e}\n{text}"),
    };
    ensure!(f.entries.len() == con.entries.len(), "{} messages, expected {}", f.entries.len(), con.entries.len());
    let off = con.block.is_some() as usize;
    let mut first = std::collections::HashMap::new();
    for (i, l) in doc.lines.iter().enumerate() {
        if let Some(o) = l.owner {
            first.entry(o).or_insert(i + 1);
        }
    }
    for (i, e) in f.entries.iter().enumerate() {
        let item = i + off;
        if item == 0 {
            continue;
        }
        let want = first[&item];
        ensure!(e.linenum == want, "message {i} ({:?}) starts at line {want}, recorded {}\n{text}", e.msgid, e.linenum);
    }
    Ok(())
}
