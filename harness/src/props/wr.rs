//! Writing: C06-C09, C23, C31.
use crate::engine::*;
use crate::gen::{self, cwidth};
use crate::model::*;
use rspolib::errors::EscapingError;
use rspolib::prelude::*;
use rspolib::{escaping, pofile, MOEntry, MOFile, POEntry};
use unicode_width::UnicodeWidthStr;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            quick: 5_000_000,
            thorough: 40_000_000,
            rule: "A case is a string to escape and a string rich in backslashes to unescape; non-trivial if the first has a character that needs escaping or the second has a backslash.",
            assumptions: &[],
            case: c06,
        },
        Prop {
            id: "C07",
            quick: 2_500_000,
            thorough: 20_000_000,
            rule: "A case is a string, the field it is in (id, plural id, translation, context, previous ids, MO message; obsolete or not) and a wrap width; non-trivial if the string is written over more than one piece.",
            assumptions: &["one column of slack where a line ends (the library counts the last one-byte character of a segment twice; pinned by tests)", "display width by unicode-width, opportunities by unicode-linebreak, as the library does"],
            case: c07,
        },
        Prop {
            id: "C08",
            quick: 750_000,
            thorough: 6_000_000,
            rule: "A case is a message with comments and occurrences of any length and a wrap width; non-trivial if something has to be wrapped.",
            assumptions: &["comment lines have no whitespace at their ends; occurrence paths have no whitespace, and a colon only without a line number"],
            case: c08,
        },
        Prop {
            id: "C09",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case is a PO or MO catalog and a wrap width (passed as option when reading, or set); non-trivial if it has at least two messages and a field of one is wrapped at that width.",
            assumptions: &[],
            case: c09,
        },
        Prop {
            id: "C23",
            quick: 250_000,
            thorough: 2_000_000,
            rule: "A case is a catalog reached along two different histories (insertion orders, removed items, clones, reloads); non-trivial if it has at least three metadata items.",
            assumptions: &["natural order is checked for keys of letters, digits and '-' without leading zeros"],
            case: c23,
        },
        Prop {
            id: "C31",
            quick: 375_000,
            thorough: 3_000_000,
            rule: "A case is a catalog with arbitrary strings in every field and any wrap width; non-trivial if it has a message.",
            assumptions: &[],
            case: c31,
        },
    ]
}

pub fn slashy(s: &mut Src) -> String {
    let n = s.size(12);
    let mut o = String::new();
    for _ in 0..n {
        match s.weighted(&[4, 6, 2, 2, 1, 3]) {
            0 => o.push('\\'),
            5 => {
                o.push('\\');
                o.push(char::from(s.upto(127) as u8));
            }
            1 => o.push(*s.pick(&['n', 't', 'r', 'b', 'v', 'f', '"', '\\', 'a', '0', 'x', 'u', ' ', '\n', 'N', '\''])),
            2 => o.push_str(&gen::text(s, 3)),
            3 => o.push_str("\\\\"),
            _ => o.push(*s.pick(gen::UNICODE)),
        }
    }
    o
}

/// Very rarely a very long string.
fn stretched(s: &mut Src, t: String, one_in: u64) -> String {
    if s.one_in(one_in) {
        let n = gen::big(s);
        gen::stretch(&t, n)
    } else {
        t
    }
}

fn c06(s: &mut Src, c: &mut Ctx) -> Res {
    let t = gen::anytext(s);
    let t = stretched(s, t, 10_000);
    let u = slashy(s);
    let u = stretched(s, u, 10_000);
    c.key(&(&t, &u));
    c.note(|| format!("escape {t:?}, unescape {u:?}"));
    let e = escaping::escape(&t).to_string();
    c.nontrivial(e != t || u.contains('\\'));
    match escaping::unescape(&e) {
        Ok(b) => ensure!(b == t, "{t:?} escaped is {e:?}, unescaped {b:?}"),
        Err(x) => fail!("{t:?} escaped is {e:?}, which cannot be unescaped: {x}"),
    }
    let mut esc = false;
    for ch in e.chars() {
        match ch {
            '\n' | '\r' | '\t' => fail!("{t:?} escaped is {e:?}, with a raw {ch:?}"),
            '"' if !esc => fail!("{t:?} escaped is {e:?}, with an unescaped quote"),
            '\\' => {
                esc = !esc;
                continue;
            }
            _ => {}
        }
        esc = false;
    }
    ensure!(!esc, "{t:?} escaped is {e:?}, ending inside of an escape");
    for x in [&u, &t] {
        let got = escaping::unescape(x);
        match (unescape(x), got) {
            (Ok(w), Ok(g)) => ensure!(w == g, "{x:?} unescaped is {g:?}, expected {w:?}"),
            (Err(Unesc::AtEnd), Err(EscapingError::EscapeAtEndOfString { .. })) => c.label("cut off"),
            (Err(Unesc::Unknown(w)), Err(EscapingError::InvalidEscapedCharacter { character, .. })) => {
                c.label("unknown escape");
                ensure!(w == character, "{x:?}: unknown escape reported for {character:?}, expected {w:?}")
            }
            (w, g) => fail!("{x:?} unescaped is {g:?}, expected {w:?}"),
        }
    }
    // a message's unescaped form: every string of it unescaped
    if s.one_in(8) {
        let mut part = |s: &mut Src| match s.weighted(&[4, 2, 1]) {
            0 => escape(&gen::text(s, 4)),
            1 => String::new(),
            _ => slashy(s),
        };
        let mut m = M { msgid: part(s), ..Default::default() };
        m.msgstr = gen::opt(s, 1, 2, &mut part);
        m.msgctxt = gen::opt(s, 1, 2, &mut part);
        m.msgid_plural = gen::opt(s, 1, 2, &mut part);
        let n = if s.one_in(8) { s.range(3, 20) } else { s.below(3) };
        m.msgstr_plural = (0..n).map(|_| part(s)).collect();
        m.previous_msgid = gen::opt(s, 1, 3, &mut part);
        m.previous_msgid_plural = gen::opt(s, 1, 3, &mut part);
        m.previous_msgctxt = gen::opt(s, 1, 3, &mut part);
        m.comment = gen::opt(s, 1, 3, &mut part);
        m.tcomment = gen::opt(s, 1, 3, &mut part);
        m.flags = vec![part(s)];
        m.occurrences = vec![(part(s), part(s))];
        c.label("message");
        c.note(|| format!("unescape message {}", short(&m)));
        let un = |t: &Option<String>| -> Result<Option<String>, Unesc> { t.as_deref().map(unescape).transpose() };
        let want = (|| {
            let mut w = m.clone();
            w.msgid = unescape(&m.msgid)?;
            w.msgstr = un(&m.msgstr)?;
            w.msgctxt = un(&m.msgctxt)?;
            w.msgid_plural = un(&m.msgid_plural)?;
            w.msgstr_plural = m.msgstr_plural.iter().map(|t| unescape(t)).collect::<Result<_, _>>()?;
            w.previous_msgid = un(&m.previous_msgid)?;
            w.previous_msgid_plural = un(&m.previous_msgid_plural)?;
            w.previous_msgctxt = un(&m.previous_msgctxt)?;
            Ok::<M, Unesc>(w)
        })();
        match (want, m.po().unescaped()) {
            (Ok(w), Ok(g)) => ensure!(M::of(&g) == w, "unescaped message is {}\nexpected {}", short(&M::of(&g)), short(&w)),
            (Err(_), Err(_)) => {}
            (w, g) => fail!("unescaped message is {:?}, expected {:?}", g.map(|e| short(&M::of(&e))), w.map(|m| short(&m))),
        }
    }
    Ok(())
}

/// The string fields in the text of a message: (marker, keyword, pieces).
pub fn fields(text: &str) -> Result<Vec<(String, String, Vec<String>)>, String> {
    let mut o: Vec<(String, String, Vec<String>)> = vec![];
    for l in text.split('\n') {
        if l.is_empty() {
            continue;
        }
        let (mark, rest) = if let Some(r) = l.strip_prefix("#~| ") {
            ("#~| ", r)
        } else if let Some(r) = l.strip_prefix("#| ") {
            ("#| ", r)
        } else if let Some(r) = l.strip_prefix("#~ ") {
            ("#~ ", r)
        } else if l.starts_with('#') {
            continue;
        } else {
            ("", l)
        };
        let piece = |q: &str| -> Result<String, String> {
            if q.len() >= 2 && q.starts_with('"') && q.ends_with('"') {
                Ok(q[1..q.len() - 1].to_string())
            } else {
                Err(format!("not a quoted string: {l:?}"))
            }
        };
        if rest.starts_with('"') {
            match o.last_mut() {
                Some(f) if f.0 == mark => f.2.push(piece(rest)?),
                Some(f) => return Err(format!("continuation with marker {mark:?} after a field with marker {:?}", f.0)),
                None => return Err("continuation without a field".into()),
            }
        } else {
            let (kw, q) = rest.split_once(' ').ok_or(format!("no string: {l:?}"))?;
            o.push((mark.into(), kw.into(), vec![piece(q)?]));
        }
    }
    Ok(o)
}

fn in_escape(t: &str, at: usize) -> bool {
    at < t.len() && t.as_bytes()[..at].iter().rev().take_while(|b| **b == b'\\').count() % 2 == 1
}

fn opportunities(t: &str) -> Vec<usize> {
    unicode_linebreak::linebreaks(t).map(|x| x.0).filter(|i| *i < t.len() && !in_escape(t, *i)).collect()
}

fn least(t: &str) -> usize {
    UnicodeWidthStr::width(t).min(cwidth(t))
}
fn most(t: &str) -> usize {
    UnicodeWidthStr::width(t).max(cwidth(t))
}

/// The pieces a string value is written in.
fn check_pieces(v: &str, pieces: &[String], ww: usize) -> Res {
    let e = escape(v);
    let joined = pieces.concat();
    ensure!(joined == e, "the pieces {pieces:?} do not make up {e:?}");
    let ops = opportunities(&e);
    let mut at = 0;
    let n = pieces.len();
    for (i, p) in pieces.iter().enumerate() {
        let end = at + p.len();
        if i + 1 < n && !p.is_empty() && end < e.len() {
            ensure!(!in_escape(&e, end), "break inside of an escape sequence: {pieces:?}");
            ensure!(ops.contains(&end), "break after {p:?}, where none is allowed: {pieces:?}");
            // up to the next opportunity it would not have fit
            let next = ops.iter().copied().find(|x| *x > end).unwrap_or(e.len());
            let w = most(&e[at..next]);
            ensure!(w + 1 > ww, "break after {p:?} at width {ww}, though {:?} ({w} columns) fits: {pieces:?}", &e[at..next]);
        }
        if p.is_empty() && i > 0 && n > 1 {
            ensure!(i == n - 1 && e.is_empty(), "an empty piece: {pieces:?}");
        }
        if least(p) > ww {
            if let Some(x) = ops.iter().find(|x| **x > at && **x < end) {
                fail!("{p:?} is {} columns wide at width {ww} but can be broken before {:?}", least(p), &e[*x..end]);
            }
        }
        at = end;
    }
    Ok(())
}

fn c07(s: &mut Src, c: &mut Ctx) -> Res {
    let v = match s.weighted(&[2, 5]) {
        0 => gen::text(s, 30),
        _ => gen::prose(s, 60),
    };
    let v = stretched(s, v, 20_000);
    let ww = gen::width(s);
    let field = s.below(9);
    let obsolete = s.bool();
    c.key(&(&v, ww, field, obsolete));
    c.note(|| format!("wrap width {ww}, field {field}, obsolete {obsolete}, string {v:?}"));
    let (text, mark, kw): (String, &str, &str);
    let o = if obsolete { "#~ " } else { "" };
    let ob = if obsolete { "#~| " } else { "#| " };
    if field == 8 {
        let e = MOEntry::new("i".into(), Some(v.clone()), None, vec![], None);
        text = e.to_string_with_wrapwidth(ww);
        mark = "";
        kw = "msgstr";
    } else {
        let mut e = POEntry::new(0);
        e.obsolete = obsolete;
        e.msgid = "i".into();
        e.msgstr = Some("s".into());
        (mark, kw) = match field {
            0 => {
                e.msgid = v.clone();
                (o, "msgid")
            }
            1 => {
                e.msgstr = Some(v.clone());
                (o, "msgstr")
            }
            2 => {
                e.msgctxt = Some(v.clone());
                (o, "msgctxt")
            }
            3 => {
                e.msgid_plural = Some(v.clone());
                (o, "msgid_plural")
            }
            4 => {
                e.msgid_plural = Some("p".into());
                e.msgstr = None;
                e.msgstr_plural = vec!["a".into(), v.clone()];
                (o, "msgstr[1]")
            }
            5 => {
                e.previous_msgid = Some(v.clone());
                (ob, "msgid")
            }
            6 => {
                e.previous_msgid_plural = Some(v.clone());
                (ob, "msgid_plural")
            }
            _ => {
                e.previous_msgctxt = Some(v.clone());
                (ob, "msgctxt")
            }
        };
        text = e.to_string_with_wrapwidth(ww);
    }
    c.note(|| text.clone());
    let fs = fields(&text).map_err(|e| format!("{e}\n{text}"))?;
    let f = match fs.iter().find(|f| f.0 == mark && f.1 == kw) {
        Some(f) => f,
        None => fail!("no field {mark}{kw} in\n{text}"),
    };
    c.nontrivial(f.2.len() > 2);
    let whole = most(&format!("{mark}{kw} \"{}\"", escape(&v)));
    ensure!(f.2.len() == 1 || whole > ww, "broken at width {ww}, though the line is {whole} columns wide\n{text}");
    check_pieces(&v, &f.2, ww).map_err(|e| format!("{e}\n{text}"))
}

fn ws_free(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Lines written for a comment must be its lines, broken only at whitespace
/// that is dropped or at opportunities.
fn check_comment(comment: &str, lines: &[&str], marker: &str, ww: usize) -> Res {
    let mut out = lines.iter();
    let plen = marker.len() + 1;
    for l in comment.split('\n') {
        let ops = opportunities(l);
        let mut at = 0;
        loop {
            let o = match out.next() {
                Some(o) => o,
                None => fail!("{:?} is missing from the lines written for {comment:?}: {lines:?}", &l[at..]),
            };
            let body = match o.strip_prefix(marker) {
                Some(b) => b.strip_prefix(' ').unwrap_or(b),
                None => fail!("a line without its marker {marker:?}: {o:?}"),
            };
            let body = body.trim_end();
            if l.trim().is_empty() {
                ensure!(body.is_empty(), "{body:?} written for a blank line");
                break;
            }
            ensure!(!body.is_empty(), "a blank line was written for {l:?}");
            // skip whitespace that was at a line end
            while !l[at..].starts_with(body) {
                match l[at..].chars().next() {
                    Some(ch) if ch.is_whitespace() => at += ch.len_utf8(),
                    _ => fail!("{body:?} written, expected the beginning of {:?} (comment {comment:?}, lines {lines:?})", &l[at..]),
                }
            }
            let end = at + body.len();
            if least(body) + plen > ww {
                if let Some(x) = ops.iter().find(|x| **x > at && **x < end && least(l[at..**x].trim()) > 0 && least(l[**x..end].trim()) > 0) {
                    fail!("{o:?} is wider than {ww} but can be broken before {:?}", &l[*x..end]);
                }
            }
            if l[end..].trim().is_empty() {
                break;
            }
            ensure!(most(l).saturating_add(plen) > ww, "{o:?} is broken at width {ww}, but {l:?} fits");
            // what comes next did not fit
            let next = end + l[end..].len() - l[end..].trim_start().len();
            let x = ops.iter().copied().find(|x| *x > next).unwrap_or(l.len());
            ensure!(most(&l[at..x]).saturating_add(plen + 1) > ww, "{o:?} is broken at width {ww}, but {:?} would have fitted", &l[next..x]);
            at = end;
        }
    }
    if let Some(o) = out.next() {
        fail!("{o:?} written in addition to {comment:?}");
    }
    Ok(())
}

fn long_comment(s: &mut Src) -> String {
    let n = s.range(1, 4);
    (0..n)
        .map(|_| {
            let t = match s.weighted(&[3, 2, 1]) {
                0 => gen::prose(s, 30),
                1 => gen::prose(s, 100),
                _ => gen::text(s, 20),
            };
            let t = stretched(s, t, 10_000);
            t.replace('\n', " ").trim_end().to_string()
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn c08(s: &mut Src, c: &mut Ctx) -> Res {
    let mut m = M { msgid: "i".into(), msgstr: Some("s".into()), ..Default::default() };
    m.tcomment = gen::opt(s, 1, 2, long_comment);
    m.comment = gen::opt(s, 1, 2, long_comment);
    let n = match s.weighted(&[2, 4, 1]) {
        0 => 0,
        1 => s.range(1, 12),
        _ if s.one_in(300) => gen::big(s).min(5000),
        _ => s.range(13, 60),
    };
    m.occurrences = (0..n).map(|_| gen::occurrence(s)).collect();
    m.obsolete = s.one_in(6);
    let ww = gen::width(s);
    c.key(&(&m, ww));
    c.note(|| format!("wrap width {ww}, {}", short(&m)));
    let text = m.po().to_string_with_wrapwidth(ww);
    c.note(|| text.clone());
    let lines: Vec<&str> = text.split('\n').collect();
    ensure!(lines.last() == Some(&""), "the text does not end with a line end");
    let (mut tc, mut gc, mut oc, mut rest) = (vec![], vec![], vec![], vec![]);
    for l in &lines[..lines.len() - 1] {
        if *l == "#" || l.starts_with("# ") {
            tc.push(*l);
        } else if l.starts_with("#.") {
            gc.push(*l);
        } else if l.starts_with("#:") {
            oc.push(*l);
        } else {
            rest.push(*l);
        }
    }
    let d = if m.obsolete { "#~ " } else { "" };
    let r = rest.concat().replace(&format!("\"\"{d}"), "");
    let want = format!("{d}msgid \"i\"{d}msgstr \"s\"");
    ensure!(r == want, "lines without a comment marker: {rest:?}");
    let wraps = |t: &Option<String>, got: usize| t.as_ref().map_or(false, |t| t.split('\n').count() < got);
    c.nontrivial(wraps(&m.tcomment, tc.len()) || wraps(&m.comment, gc.len()) || oc.len() > 1);
    match &m.tcomment {
        Some(t) => check_comment(t, &tc, "#", ww)?,
        None => ensure!(tc.is_empty(), "translator comment lines {tc:?} out of nothing"),
    }
    match &m.comment {
        Some(t) => check_comment(t, &gc, "#.", ww)?,
        None => ensure!(gc.is_empty(), "comment lines {gc:?} out of nothing"),
    }
    if !m.obsolete {
        let want: Vec<String> = m.occurrences.iter().map(|(f, l)| if l.is_empty() { f.clone() } else { format!("{f}:{l}") }).collect();
        let mut got = vec![];
        for l in &oc {
            let toks: Vec<&str> = l[2..].split_whitespace().collect();
            ensure!(!toks.is_empty(), "an empty occurrences line");
            if toks.len() > 1 {
                ensure!(least(l) <= ww, "{l:?} is {} columns wide at width {ww}", least(l));
            }
            got.extend(toks.into_iter().map(|x| x.to_string()));
        }
        ensure!(got == want, "occurrences {got:?} written for {want:?}");
        for w in oc.windows(2) {
            let next = w[1][2..].split_whitespace().next().unwrap_or("");
            ensure!(most(w[0]).saturating_add(1 + most(next)) > ww, "{:?} is broken at width {ww}, but {next:?} would have fitted", w[0]);
        }
    } else {
        ensure!(oc.is_empty(), "occurrences of an obsolete message are written");
    }
    // reads back
    let doc = format!("#\nmsgid \"\"\nmsgstr \"\"\n\n{text}");
    let f = match pofile(doc.as_str()) {
        Ok(f) => f,
        Err(e) => fail!("the text is rejected: {e}\n{text}"),
    };
    ensure!(f.entries.len() == 1, "{} messages read back", f.entries.len());
    let g = M::of(&f.entries[0]);
    if !m.obsolete {
        ensure!(g.occurrences == m.occurrences, "occurrences {:?} read back as {:?}", m.occurrences, g.occurrences);
    }
    let all = |t: &Option<String>| ws_free(t.as_deref().unwrap_or(""));
    ensure!(all(&g.comment) == all(&m.comment), "comment {:?} read back as {:?}", m.comment, g.comment);
    ensure!(all(&g.tcomment) == all(&m.tcomment), "translator comment {:?} read back as {:?}", m.tcomment, g.tcomment);
    ensure!(g.msgid == "i" && g.msgstr.as_deref() == Some("s"), "strings read back as {:?} {:?}", g.msgid, g.msgstr);
    Ok(())
}

fn rank(l: &str, obsolete: bool) -> Option<u32> {
    let kw = |r: &str, base: u32| -> Option<u32> {
        let k = r.split([' ', '[']).next()?;
        Some(
            base + match k {
                "msgctxt" => 0,
                "msgid" => 1,
                "msgid_plural" => 2,
                "msgstr" => 3,
                _ => return None,
            },
        )
    };
    if l == "#" || l.starts_with("# ") {
        Some(0)
    } else if l.starts_with("#.") {
        Some(1)
    } else if l.starts_with("#:") {
        Some(2)
    } else if l.starts_with("#,") {
        Some(3)
    } else if let Some(r) = l.strip_prefix(if obsolete { "#~| " } else { "#| " }) {
        kw(r, 10)
    } else if obsolete {
        kw(l.strip_prefix("#~ ")?, 20)
    } else {
        kw(l, 20)
    }
}

/// The lines of one message: order, markers and which fields are there.
fn check_message(m: &M, text: &str, ww: usize) -> Res {
    let mut last = 0;
    for l in text.split('\n') {
        if l.is_empty() {
            continue;
        }
        let body = l.trim_start_matches("#~| ").trim_start_matches("#| ").trim_start_matches("#~ ");
        if body.starts_with('"') {
            if m.obsolete {
                ensure!(l.starts_with("#~ ") || l.starts_with("#~| "), "string line without the obsolete marker: {l:?}");
            }
            continue;
        }
        match rank(l, m.obsolete) {
            None => fail!("unexpected line {l:?} in\n{text}"),
            Some(r) => {
                ensure!(r >= last, "line {l:?} out of order in\n{text}");
                last = r;
            }
        }
    }
    let fs = fields(text)?;
    let mut want: Vec<(String, String, &str)> = vec![];
    let pm = if m.obsolete { "#~| " } else { "#| " };
    let sm = if m.obsolete { "#~ " } else { "" };
    for (k, v) in [("msgctxt", &m.previous_msgctxt), ("msgid", &m.previous_msgid), ("msgid_plural", &m.previous_msgid_plural)] {
        if let Some(v) = v {
            want.push((pm.into(), k.into(), v));
        }
    }
    if let Some(v) = &m.msgctxt {
        want.push((sm.into(), "msgctxt".into(), v));
    }
    want.push((sm.into(), "msgid".into(), &m.msgid));
    if let Some(v) = &m.msgid_plural {
        want.push((sm.into(), "msgid_plural".into(), v));
    }
    if m.msgstr_plural.is_empty() {
        want.push((sm.into(), "msgstr".into(), m.msgstr.as_deref().unwrap_or("")));
    }
    for (i, v) in m.msgstr_plural.iter().enumerate() {
        want.push((sm.into(), format!("msgstr[{i}]"), v));
    }
    ensure!(
        fs.len() == want.len() && fs.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1),
        "fields {:?}, expected {:?}\n{text}",
        fs.iter().map(|f| format!("{}{}", f.0, f.1)).collect::<Vec<_>>(),
        want.iter().map(|f| format!("{}{}", f.0, f.1)).collect::<Vec<_>>()
    );
    for (f, w) in fs.iter().zip(&want) {
        check_pieces(w.2, &f.2, ww)?;
    }
    let flags: Vec<&str> = text.split('\n').filter(|l| l.starts_with("#,")).collect();
    if m.flags.is_empty() {
        ensure!(flags.is_empty(), "flags line out of nothing");
    } else {
        ensure!(flags == [format!("#, {}", m.flags.join(", "))], "flags {:?} written as {flags:?}", m.flags);
    }
    Ok(())
}

fn meta_block(fuzzy: bool, msgstr: Option<&str>) -> String {
    let mut o = String::new();
    if fuzzy {
        o.push_str("#, fuzzy\n");
    }
    o.push_str("msgid \"\"\nmsgstr \"\"\n");
    if let Some(t) = msgstr {
        for l in t.split('\n') {
            o.push_str(&format!("\"{}\\n\"\n", escape(l)));
        }
    }
    o
}

fn c09(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cat = gen::catalog(s, 8);
    let ww = gen::width(s);
    let mo = s.one_in(4);
    let how = s.below(3);
    if !cat.entries.is_empty() && s.one_in(if ww > 100 { 20 } else { 100 }) {
        let i = s.below(cat.entries.len());
        gen::widen(s, &mut cat.entries[i], ww);
    }
    c.key(&(&cat, ww, mo, how));
    c.note(|| format!("wrap width {ww}, {}, {}", if mo { "MO" } else { "PO" }, show_cat(&cat)));
    if mo {
        let f0 = MoCat { metadata: cat.metadata.clone(), entries: cat.entries.iter().map(mo_of_m).collect() };
        let mut f = f0.mo(ww);
        if how == 1 {
            f = MOFile::new("".into());
            f.metadata = cat.metadata.clone().into_iter().collect();
            f.entries = f0.entries.iter().map(Mo::mo).collect();
            f.options.wrapwidth = ww;
        }
        let text = f.to_string();
        let mut want = String::from("#\n");
        want.push_str(&meta_block(false, f.metadata_as_entry().msgstr.as_deref()));
        for (e, m) in f.entries.iter().zip(&f0.entries) {
            let t = e.to_string_with_wrapwidth(ww);
            let as_m = M { msgid: m.msgid.clone(), msgstr: m.msgstr.clone(), msgid_plural: m.msgid_plural.clone(), msgstr_plural: m.msgstr_plural.clone(), msgctxt: m.msgctxt.clone(), ..Default::default() };
            check_message(&as_m, &t, ww)?;
            want.push('\n');
            want.push_str(&t);
        }
        c.nontrivial(f.entries.len() >= 2 && text.contains("\"\"\n\""));
        ensure!(text == want, "text is\n{text}\nexpected\n{want}");
        return Ok(());
    }
    let f = match how {
        0 => cat.po(ww),
        1 => {
            let mut f = cat.po(78);
            f.options.wrapwidth = ww;
            f
        }
        _ => {
            // read with the width as an option
            let mut k = cat.clone();
            gen::fit_comments(&mut k, 1000);
            let t = k.po(1000).to_string();
            let f = pofile((t.as_str(), ww)).map_err(|e| format!("rejected: {e}\n{t}"))?;
            cat = Cat::of(&f);
            f
        }
    };
    let text = f.to_string();
    let mut want = String::new();
    for l in cat.header.as_deref().unwrap_or("").trim_end_matches('\n').split('\n') {
        if l.is_empty() {
            want.push_str("#\n");
        } else {
            want.push_str(&format!("# {l}\n"));
        }
    }
    want.push_str(&meta_block(cat.fuzzy, f.metadata_as_entry().msgstr.as_deref()));
    for obsolete in [false, true] {
        for (e, m) in f.entries.iter().zip(&cat.entries).filter(|x| x.1.obsolete == obsolete) {
            let t = e.to_string_with_wrapwidth(ww);
            check_message(m, &t, ww)?;
            want.push('\n');
            want.push_str(&t);
        }
    }
    c.nontrivial(f.entries.len() >= 2 && text.contains("\"\"\n\""));
    ensure!(text == want, "text is\n{text}\nexpected\n{want}");
    Ok(())
}

fn natural_key(k: &str) -> Vec<(bool, u128, String)> {
    // digit runs by value, other characters by code point; a digit run
    // sorts against a non-digit by its first character
    let cs: Vec<char> = k.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_ascii_digit() {
            let mut j = i;
            while j < cs.len() && cs[j].is_ascii_digit() {
                j += 1;
            }
            let t: String = cs[i..j].iter().collect();
            o.push((true, t.parse().unwrap_or(u128::MAX), t));
            i = j;
        } else {
            o.push((false, cs[i] as u128, String::new()));
            i += 1;
        }
    }
    o
}

fn natural_lt(a: &str, b: &str) -> bool {
    let (x, y) = (natural_key(a), natural_key(b));
    for (p, q) in x.iter().zip(&y) {
        if p.0 && q.0 {
            if p.1 != q.1 {
                return p.1 < q.1;
            }
        } else {
            let first = |e: &(bool, u128, String)| if e.0 { e.2.chars().next().unwrap() as u128 } else { e.1 };
            let (f, g) = (first(p), first(q));
            if f != g {
                return f < g;
            }
        }
    }
    x.len() < y.len()
}

fn simple_key(s: &mut Src) -> String {
    let n = s.range(1, 4);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(4) {
            0 => o.push_str(s.pick(&["X", "x", "A", "b", "Zz"])),
            1 => o.push('-'),
            2 => {
                if !o.ends_with(|c: char| c.is_ascii_digit()) {
                    o.push_str(&s.range(1, 300).to_string())
                }
            }
            _ => o.push_str(s.pick(&["X-", "Key", "Poedit-"])),
        }
    }
    o
}

fn shuffled<T: Clone>(s: &mut Src, v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        let j = s.below(i + 1);
        v.swap(i, j);
    }
    v
}

fn c23(s: &mut Src, c: &mut Ctx) -> Res {
    let simple = s.upto(3) > 0;
    let n = s.size(14);
    let mut meta: Meta = Meta::new();
    for _ in 0..n {
        let k = if simple {
            if s.bool() {
                s.pick(gen::STD_KEYS).to_string()
            } else {
                simple_key(s)
            }
        } else {
            gen::meta_key(s)
        };
        meta.insert(k, gen::meta_value(s));
    }
    if s.one_in(2000) {
        let n = gen::big(s).min(5000);
        for i in 0..n {
            meta.insert(format!("X-{}", (i * 7) % 1024), i.to_string());
        }
    }
    let msgs = gen::mo_messages(s, 5, true);
    let items: Vec<(String, String)> = meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    c.key(&(&items, &msgs));
    c.note(|| format!("metadata {items:?}, messages {msgs:?}"));
    c.nontrivial(items.len() >= 3);
    // two histories
    let fill = |s: &mut Src, map: &mut std::collections::HashMap<String, String>| {
        for (k, v) in shuffled(s, &items) {
            if s.one_in(4) {
                map.insert(format!("{k}-gone"), "x".into());
                map.insert(k.clone(), "old".into());
            }
            map.insert(k.clone(), v);
        }
        map.retain(|k, _| meta.contains_key(k));
    };
    let mut pa = rspolib::POFile::new("".into());
    let mut pb = rspolib::POFile::new("".into());
    let mut ma = MOFile::new("".into());
    let mut mb = MOFile::new("".into());
    fill(s, &mut pa.metadata);
    fill(s, &mut pb.metadata);
    fill(s, &mut ma.metadata);
    fill(s, &mut mb.metadata);
    for m in &msgs {
        pa.entries.push(POEntry::from(&m.mo()));
        ma.entries.push(m.mo());
    }
    // the same list by another route
    pb.entries.push(POEntry::from("gone"));
    for m in &msgs {
        pb.entries.push(POEntry::from(&m.mo()));
    }
    pb.entries.remove(0);
    for m in shuffled(s, &msgs) {
        mb.entries.push(m.mo());
    }
    if s.bool() {
        pb = pb.clone();
        mb = mb.clone();
    }
    ensure!(pa.to_string() == pb.to_string(), "equal catalogs, different text:\n{}\nand\n{}", pa, pb);
    ensure!(pa.as_bytes() == pb.as_bytes(), "equal catalogs, different MO bytes");
    ensure!(pa.to_string() == pa.to_string(), "writing twice gives different text");
    for (x, y) in [(ma.as_bytes(), mb.as_bytes()), (ma.as_bytes_be(), mb.as_bytes_be()), (ma.as_bytes_with(rspolib::MAGIC, 1), mb.as_bytes_with(rspolib::MAGIC, 1))] {
        ensure!(x == y, "the same messages in another order give different MO bytes");
    }
    // reloading and writing again
    let text = pa.to_string();
    let r = pofile(text.as_str()).map_err(|e| format!("rejected: {e}\n{text}"))?;
    ensure!(r.to_string() == text, "text after reloading differs:\n{text}\nthen\n{r}");
    // canonical order
    for block in [pa.metadata_as_entry().msgstr, ma.metadata_as_entry().msgstr] {
        let block = block.unwrap_or_default();
        let lines: Vec<&str> = if block.is_empty() { vec![] } else { block.split('\n').collect() };
        ensure!(lines.len() == items.len(), "metadata {items:?} written as {lines:?}");
        let keys: Vec<&str> = lines.iter().map(|l| l.split_once(": ").map_or(*l, |x| x.0)).collect();
        for (k, l) in keys.iter().zip(&lines) {
            ensure!(meta.get(*k).map(|v| format!("{k}: {v}")) == Some(l.to_string()), "metadata line {l:?} is not an item of {items:?}");
        }
        let pos = |k: &str| gen::STD_KEYS.iter().position(|x| *x == k);
        for w in keys.windows(2) {
            match (pos(w[0]), pos(w[1])) {
                (Some(a), Some(b)) => ensure!(a < b, "metadata key {:?} before {:?}", w[0], w[1]),
                (None, Some(_)) => fail!("metadata key {:?} before standard key {:?}", w[0], w[1]),
                (Some(_), None) => {}
                (None, None) => {
                    if simple {
                        c.label("natural order");
                        ensure!(!natural_lt(w[1], w[0]), "metadata keys {:?} before {:?} are not in natural order", w[0], w[1]);
                    }
                }
            }
        }
    }
    // and so in the text
    let block = pa.metadata_as_entry().msgstr;
    ensure!(text.contains(&meta_block(false, block.as_deref())), "the metadata block is not in the text:\n{text}");
    Ok(())
}

fn wild(s: &mut Src) -> String {
    let t = match s.weighted(&[5, 3, 2]) {
        0 => gen::text(s, 10),
        1 => gen::text(s, 40),
        _ => gen::prose(s, 40),
    };
    if s.one_in(20_000) {
        let n = if s.one_in(4) { 150_000 } else { gen::big(s) };
        return gen::stretch(if s.bool() { "w" } else { &t }, n);
    }
    t
}

fn wild_message(s: &mut Src) -> M {
    let mut m = M::default();
    m.msgid = wild(s);
    m.msgstr = gen::opt(s, 1, 2, wild);
    m.msgid_plural = gen::opt(s, 1, 3, wild);
    let n = s.size(6);
    m.msgstr_plural = if s.one_in(3) { (0..n).map(|_| wild(s)).collect() } else { vec![] };
    m.msgctxt = gen::opt(s, 1, 3, wild);
    m.obsolete = s.one_in(4);
    m.comment = gen::opt(s, 1, 3, wild);
    m.tcomment = gen::opt(s, 1, 3, wild);
    let n = s.size(6);
    m.occurrences = (0..n).map(|_| if s.one_in(6) { gen::occurrence(s) } else { (gen::text(s, 6), gen::text(s, 3)) }).collect();
    let n = s.size(3);
    m.flags = (0..n).map(|_| gen::text(s, 4)).collect();
    m.previous_msgid = gen::opt(s, 1, 5, wild);
    m.previous_msgid_plural = gen::opt(s, 1, 5, wild);
    m.previous_msgctxt = gen::opt(s, 1, 5, wild);
    m
}

/// Some msgid field in the text has this value.
fn has_msgid(text: &str, obsolete: bool, v: &str) -> bool {
    let e = escape(v);
    let mk = if obsolete { "#~ " } else { "" };
    let ls: Vec<&str> = text.split('\n').collect();
    (0..ls.len()).any(|i| {
        let first = match ls[i].strip_prefix(mk).and_then(|r| r.strip_prefix("msgid ")) {
            Some(r) => r,
            None => return false,
        };
        let mut t = String::new();
        let mut cur = Some(first);
        let mut j = i;
        while let Some(q) = cur {
            if q.len() < 2 || !q.starts_with('"') || !q.ends_with('"') {
                break;
            }
            t.push_str(&q[1..q.len() - 1]);
            j += 1;
            cur = ls.get(j).and_then(|l| l.strip_prefix(mk)).filter(|l| l.starts_with('"'));
        }
        t == e
    })
}

fn c31(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.size(5);
    let k = s.size(4);
    let cat = Cat {
        header: gen::opt(s, 1, 2, wild),
        metadata: (0..k).map(|_| (gen::text(s, 6), wild(s))).collect(),
        fuzzy: s.bool(),
        entries: (0..n).map(|_| wild_message(s)).collect(),
    };
    let ww = gen::width(s);
    c.key(&(&cat, ww));
    c.note(|| format!("wrap width {ww}, {}", show_cat(&cat)));
    c.nontrivial(!cat.entries.is_empty());
    let f = cat.po(ww);
    let text = f.to_string();
    for (e, m) in f.entries.iter().zip(&cat.entries) {
        ensure!(has_msgid(&text, m.obsolete, &m.msgid), "the text lacks the id {:?} of a message:\n{text}", m.msgid);
        let t = e.to_string_with_wrapwidth(ww);
        ensure!(has_msgid(&t, m.obsolete, &m.msgid), "the text of a message lacks its id {:?}:\n{t}", m.msgid);
        let _ = e.to_string();
        let g = MOEntry::from(e);
        ensure!(g.to_string() == g.to_string_with_wrapwidth(78), "an MO message is not written at width 78");
        let t = g.to_string_with_wrapwidth(ww);
        ensure!(has_msgid(&t, false, &m.msgid), "the text of an MO message lacks its id {:?}:\n{t}", m.msgid);
    }
    for b in [f.as_bytes(), f.as_bytes_le(), f.as_bytes_be()] {
        ensure!(b.len() >= 28, "MO bytes too short");
    }
    let mut g = MOFile::from(&f);
    g.entries = f.entries.iter().map(MOEntry::from).collect();
    let text = g.to_string();
    for m in &cat.entries {
        ensure!(has_msgid(&text, false, &m.msgid), "the text of an MO catalog lacks the id {:?}:\n{text}", m.msgid);
    }
    for v in [0, 1, 7] {
        for magic in [rspolib::MAGIC, rspolib::MAGIC_SWAPPED] {
            let b = g.as_bytes_with(magic, v);
            ensure!(b.len() >= 28, "MO bytes too short");
            if v < 2 {
                let r = rspolib::mofile(rspolib::FileOptions::from(b.to_vec()));
                ensure!(r.is_ok(), "MO bytes that were written are rejected: {:?}", r.err());
            }
        }
    }
    Ok(())
}
