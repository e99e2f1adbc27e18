//! C32: the memory asked for in all grows with the size, not with its square.
use crate::alloc::total_of;
use crate::engine::{Ctx, Prop, Res, Src};
use rspolib::prelude::*;
use rspolib::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        quick: 10_000,
        thorough: 200_000,
        rule: "A case is a document in which one part (lines of a string, of a comment or of the header, the length of a string or comment, occurrences, flags, plural forms, messages, metadata items, blank lines) occurs a number of times and 16 times as often; non-trivial if the longer document is read.",
        assumptions: &["memory asked for in all, counted by the allocator, stands for work; 16 times the size may ask for 48 times as much"],
        case: c32,
    }]
}

const FACTOR: usize = 16;

/// A piece of a string as it stands in a document.
fn piece(s: &mut Src) -> String {
    s.pick(&["a", "word ", "two words ", "%d files\\n", "\\\"q\\\" ", "\\\\", "été ", "日本語", "unbreakable_unbreakable", "\\t", "", "tab\\tand a rather long piece of text to be wrapped somewhere ", "\u{301}", "- "])
        .to_string()
}

fn strings(prefix: &str, p: &str, n: usize) -> String {
    format!("{prefix}\"{p}\"\n").repeat(n)
}

/// The document with the part occurring `n` times.
fn document(kind: usize, mark: &str, p: &str, q: &str, n: usize) -> String {
    let word = p.replace(['"', '\\', ' '], "x");
    let word = if word.is_empty() { "w".to_string() } else { word };
    let rest = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let o = mark;
    match kind {
        0 => format!("{o}msgid \"\"\n{}{o}msgstr \"{q}\"\n", strings(o, p, n) + &format!("{o}\"a\"\n")),
        1 => format!("{o}msgid \"a\"\n{o}msgstr \"\"\n{}", strings(o, p, n)),
        2 => format!("{o}msgctxt \"\"\n{}{o}msgid \"a\"\n{o}msgstr \"{q}\"\n", strings(o, p, n)),
        3 => format!("{o}msgid \"a\"\n{o}msgid_plural \"\"\n{}{o}msgstr[0] \"{q}\"\n{o}msgstr[1] \"\"\n", strings(o, p, n)),
        4 => format!("{o}msgid \"a\"\n{o}msgid_plural \"b\"\n{o}msgstr[0] \"{q}\"\n{o}msgstr[1] \"\"\n{}", strings(o, p, n)),
        5 => format!("#| msgid \"\"\n{}msgid \"a\"\nmsgstr \"{q}\"\n", strings("#| ", p, n)),
        6 => format!("#| msgctxt \"\"\n{}#| msgid \"x\"\nmsgid \"a\"\nmsgstr \"{q}\"\n", strings("#| ", p, n)),
        7 => format!("#| msgid \"x\"\n#| msgid_plural \"\"\n{}msgid \"a\"\nmsgstr \"{q}\"\n", strings("#| ", p, n)),
        8 => format!("msgid \"x\"\nmsgstr \"\"\n\n{}msgid \"a\"\nmsgstr \"{q}\"\n", format!("# {p}\n").repeat(n)),
        9 => format!("{}msgid \"a\"\nmsgstr \"{q}\"\n", format!("#. {p} .\n").repeat(n)),
        10 => format!("{}msgid \"\"\nmsgstr \"\"\n\"A: b\\n\"\n", format!("# {p}\n").repeat(n)),
        11 => format!("{}msgid \"a\"\nmsgstr \"{q}\"\n", rest(&|i| format!("#: {word}{i}:{i}\n"))),
        12 => format!("{}msgid \"a\"\nmsgstr \"{q}\"\n", rest(&|i| format!("#, {word}{i}\n"))),
        13 => format!("#:{}\nmsgid \"a\"\nmsgstr \"{q}\"\n", rest(&|i| format!(" {word}{i}:1"))),
        14 => format!("#, a{}\nmsgid \"a\"\nmsgstr \"{q}\"\n", rest(&|i| format!(", {word}{i}"))),
        15 => format!("{o}msgid \"a{}\"\n{o}msgstr \"b{}\"\n", p.repeat(n), p.repeat(n)),
        16 => format!("{o}msgctxt \"a{}\"\n{o}msgid \"a\"\n{o}msgid_plural \"b{}\"\n{o}msgstr[0] \"{q}\"\n", p.repeat(n), p.repeat(n)),
        17 => format!("#| msgctxt \"a{0}\"\n#| msgid \"a{0}\"\n#| msgid_plural \"b{0}\"\nmsgid \"a\"\nmsgstr \"{q}\"\n", p.repeat(n)),
        18 => format!("msgid \"x\"\nmsgstr \"\"\n\n# a{0}\n#. a{0}\nmsgid \"a\"\nmsgstr \"{q}\"\n", p.repeat(n)),
        19 => format!("#: {0}\n#, {0}\nmsgid \"a\"\nmsgstr \"{q}\"\n", word.repeat(n)),
        20 => format!("{o}msgid \"a\"\n{o}msgid_plural \"b\"\n{}", rest(&|i| format!("{o}msgstr[{i}] \"{p}\"\n"))),
        21 => rest(&|i| format!("{o}msgid \"{p}{i}\"\n{o}msgstr \"{q}\"\n\n")),
        22 => rest(&|i| format!("{o}msgctxt \"{p}{i}\"\n{o}msgid \"{q}\"\n{o}msgid_plural \"{p}\"\n{o}msgstr[0] \"{q}x\"\n{o}msgstr[1] \"{p}y\"\n\n")),
        23 => rest(&|i| format!("# {p}\n#. {p}.\n#: {word}:{i}\n#, fuzzy\n#| msgid \"{q}\"\nmsgid \"{p}{i}\"\nmsgstr \"{q}\"\n\n")),
        24 => format!("msgid \"\"\nmsgstr \"\"\n{}", rest(&|i| format!("\"{word}-{i}: {p}\\n\"\n"))),
        25 => format!("msgid \"\"\nmsgstr \"{}\"\n", rest(&|i| format!("X-{i}: {p}\\n"))),
        26 => format!("msgid \"\"\nmsgstr \"\"\n{}", "\"X-Same: a\\n\"\n".repeat(n)),
        27 => format!("msgid \"\"\nmsgstr \"X: a{}\\n\"\n", p.replace("\\n", "").repeat(n)),
        28 => format!("msgid \"a\"\nmsgstr \"{q}\"\n{}msgid \"b\"\nmsgstr \"\"\n", "  \n".repeat(n)),
        29 => format!("{}#~ msgid \"a\"\n#~ msgstr \"{q}\"\n", format!("#~| msgid \"{p}\"\n").repeat(n)),
        // messages that are the same, so that nothing grows but the list
        30 => format!("{o}msgid \"{p}a\"\n{o}msgstr \"{q}\"\n\n").repeat(n),
        _ => format!("# a\n{}msgid \"a\"\nmsgstr \"{q}\"\n", "#\n".repeat(n)),
    }
}
const KINDS: usize = 32;

fn c32(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(KINDS);
    let mark = *s.pick(&["", "#~ "]);
    let p = piece(s);
    let q = piece(s);
    let n = *s.pick(&[100usize, 128, 90, 150]);
    // a width that both exceed, or none
    let ww = *s.pick(&[78usize, 20, 1, 0, usize::MAX]);
    c.key(&(kind, mark, &p, &q, n, ww));
    let one = document(kind, mark, &p, &q, n);
    let many = document(kind, mark, &p, &q, n * FACTOR);
    c.label(match kind {
        0..=7 => "lines of a string",
        8..=10 | 31 => "lines of a comment",
        11..=14 => "occurrences or flags",
        15..=19 => "length of a line",
        20 => "plural forms",
        21..=23 | 30 => "messages",
        24..=27 => "metadata",
        _ => "lines without content",
    });
    c.note(|| format!("wrap width {ww}, {n} and {} times the part that occurs twice here: {:?}", n * FACTOR, document(kind, mark, &p, &q, 2)));
    let judge = |what: &str, a: u64, b: u64| -> Res {
        ensure!(
            b <= 3 * FACTOR as u64 * (a + 2000),
            "{what}: {a} bytes of memory asked for, {b} if the part occurs {FACTOR} times as often ({} times as many)",
            b / a.max(1)
        );
        Ok(())
    };
    let read = |t: &str, how: usize| match how {
        0 => pofile((t, ww)),
        1 => pofile((t.as_bytes().to_vec(), ww)),
        _ => {
            let p = c.scratch.join("c32.po");
            std::fs::write(&p, t).expect("scratch");
            pofile((p.to_str().unwrap(), ww))
        }
    };
    let how = s.weighted(&[6, 3, 1]);
    let (f, a) = total_of(|| read(&one, how));
    let (g, b) = total_of(|| read(&many, how));
    judge("reading", a, b)?;
    let (f, g) = match (f, g) {
        (Ok(f), Ok(g)) => (f, g),
        _ => {
            c.label("rejected");
            return Ok(());
        }
    };
    c.nontrivial(true);
    let (t, a) = total_of(|| f.to_string());
    let (u, b) = total_of(|| g.to_string());
    judge("writing as text", a, b)?;
    let (x, a) = total_of(|| f.as_bytes().to_vec());
    let (y, b) = total_of(|| g.as_bytes().to_vec());
    judge("compiling", a, b)?;
    let (f, a) = total_of(|| mofile((x.clone(), ww)));
    let (g, b) = total_of(|| mofile((y.clone(), ww)));
    judge("reading the MO file", a, b)?;
    if let (Ok(f), Ok(g)) = (f, g) {
        let (_, a) = total_of(|| f.to_string());
        let (_, b) = total_of(|| g.to_string());
        judge("writing the MO file as text", a, b)?;
        let (_, a) = total_of(|| f.as_bytes_be().to_vec());
        let (_, b) = total_of(|| g.as_bytes_be().to_vec());
        judge("writing the MO file", a, b)?;
    }
    let (e, a) = total_of(|| escaping::escape(&t).to_string());
    let (d, b) = total_of(|| escaping::escape(&u).to_string());
    judge("escaping", a, b)?;
    let (_, a) = total_of(|| escaping::unescape(&e).map(|x| x.to_string()).ok());
    let (_, b) = total_of(|| escaping::unescape(&d).map(|x| x.to_string()).ok());
    judge("unescaping", a, b)
}
