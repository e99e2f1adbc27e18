//! C39: which line may follow which, and what the lines then mean.
use crate::engine::{self, *};
use crate::model::*;
use rspolib::errors::SyntaxError;
use rspolib::pofile;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C39",
        quick: 2_500_000,
        thorough: 20_000_000,
        rule: "A case is a sequence of up to 24 lines of any kinds, each continued or not, in an order drawn at random or along the grammar; non-trivial if at least five lines come before the first misplaced one or the end.",
        assumptions: &["comments, flags and previous ids between the strings of a message, and a previous id given twice, are not judged"],
        case: c39,
    }]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    Start,
    Header,
    TComment,
    Comment,
    Occurrence,
    Flags,
    PrevCtx,
    PrevId,
    PrevPlural,
    Ctx,
    Id,
    Plural,
    Str,
    Form,
    More,
    Blank,
}
use K::*;

const LINES: [K; 14] = [TComment, Comment, Occurrence, Flags, PrevCtx, PrevId, PrevPlural, Ctx, Id, Plural, Str, Form, More, Blank];

/// Whether a line may come after another; None where that is not judged.
fn follows(before: K, k: K) -> Option<bool> {
    let above = matches!(before, Start | Header | TComment | Comment | Occurrence | Flags | PrevCtx | PrevId | PrevPlural);
    let done = matches!(before, Str | Form);
    match k {
        TComment | Comment | Occurrence | Flags | PrevCtx | PrevId | PrevPlural => (above || done).then_some(true),
        Ctx => Some(above || done),
        Id => Some(above || done || before == Ctx),
        Plural | Str | Form if matches!(before, TComment | Comment | Occurrence | Flags | PrevCtx | PrevId | PrevPlural) => match (before, k) {
            (Occurrence | Flags, _) | (Comment | PrevCtx | PrevId | PrevPlural, Str | Form) => Some(false),
            _ => None,
        },
        Plural => Some(before == Id),
        Str => Some(matches!(before, Id | Plural)),
        Form => Some(matches!(before, Id | Plural | Form)),
        More => Some(!matches!(before, Start | Header | TComment | Comment | Occurrence | Flags)),
        Start | Header | Blank => Some(true),
    }
}

fn word(s: &mut Src) -> String {
    const W: &[&str] = &["a", "b", "c d", "é", "x y z", "msgid", "#", "1"];
    s.pick(W).to_string()
}

fn c39(s: &mut Src, c: &mut engine::Ctx) -> Res {
    let n = s.range(1, 24);
    let wild = s.weighted(&[3, 2]) == 1;
    let mut lines: Vec<String> = vec![];
    // what is read so far
    let mut header: Option<String> = None;
    let mut out: Vec<M> = vec![];
    let mut m = M::default();
    let mut state = Start;
    let mut kinds = vec![];
    let mut bad = None;
    for i in 0..n {
        let mut k = *s.pick(&LINES);
        if !wild {
            // along the grammar, nearly always
            let likely: &[K] = match state {
                Ctx => &[Id, Id, More],
                Id => &[Plural, Str, Str, Form, More, Blank],
                Plural => &[Form, Form, More, Str],
                Form => &[Form, Form, More, Id, Ctx, Comment, Flags, PrevId],
                Str => &[Id, Id, Ctx, TComment, Comment, Occurrence, Flags, PrevCtx, More, Blank],
                _ => &[Id, Id, Ctx, TComment, Comment, Occurrence, Flags, PrevCtx, PrevId, PrevPlural],
            };
            if s.upto(19) > 0 {
                k = *s.pick(likely);
            }
        }
        let Some(ok) = follows(state, k) else { continue };
        if k == Blank {
            lines.push(s.pick(&["", "", " ", "\t"]).to_string());
            continue;
        }
        let again = match k {
            PrevCtx => m.previous_msgctxt.is_some(),
            PrevId => m.previous_msgid.is_some(),
            PrevPlural => m.previous_msgid_plural.is_some(),
            _ => false,
        };
        let done = matches!(state, Str | Form);
        if again && !done {
            continue;
        }
        let w = word(s);
        let obs = s.one_in(6);
        let pre = match k {
            Ctx | Id | Plural | Str | Form if obs => "#~ ",
            More if obs && !matches!(state, PrevCtx | PrevId | PrevPlural) => "#~ ",
            More if matches!(state, PrevCtx | PrevId | PrevPlural) && s.bool() => "#| ",
            _ => "",
        };
        let form = m.msgstr_plural.len();
        lines.push(match k {
            TComment => format!("# {w}"),
            Comment => format!("#. {w}"),
            Occurrence => format!("#: {}:{i}", w.replace(' ', "")),
            Flags => format!("#, {w}"),
            PrevCtx => format!("#| msgctxt \"{w}\""),
            PrevId => format!("#| msgid \"{w}\""),
            PrevPlural => format!("#| msgid_plural \"{w}\""),
            Ctx => format!("{pre}msgctxt \"{w}\""),
            Id => format!("{pre}msgid \"{w}\""),
            Plural => format!("{pre}msgid_plural \"{w}\""),
            Str => format!("{pre}msgstr \"{w}\""),
            Form => format!("{pre}msgstr[{form}] \"{w}\""),
            More => format!("{pre}\"{w}\""),
            Start | Header | Blank => unreachable!(),
        });
        kinds.push(k);
        if !ok {
            bad = Some(lines.len());
            break;
        }
        if k == More {
            let f = match state {
                Ctx => m.msgctxt.as_mut(),
                Id => Some(&mut m.msgid),
                Plural => m.msgid_plural.as_mut(),
                Str => m.msgstr.as_mut(),
                Form => m.msgstr_plural.last_mut(),
                PrevCtx => m.previous_msgctxt.as_mut(),
                PrevId => m.previous_msgid.as_mut(),
                _ => m.previous_msgid_plural.as_mut(),
            };
            f.expect("a string").push_str(&w);
            continue;
        }
        if done && k != Form {
            out.push(std::mem::take(&mut m));
        }
        let join = |o: &mut Option<String>| match o {
            Some(t) => {
                t.push('\n');
                t.push_str(&w);
            }
            None => *o = Some(w.clone()),
        };
        match k {
            TComment if matches!(state, Start | Header) => join(&mut header),
            TComment => join(&mut m.tcomment),
            Comment => join(&mut m.comment),
            Occurrence => m.occurrences.push((w.replace(' ', ""), i.to_string())),
            Flags => m.flags.push(w),
            PrevCtx => m.previous_msgctxt = Some(w),
            PrevId => m.previous_msgid = Some(w),
            PrevPlural => m.previous_msgid_plural = Some(w),
            Ctx => m.msgctxt = Some(w),
            Id => {
                m.msgid = w;
                m.obsolete = !pre.is_empty();
            }
            Plural => m.msgid_plural = Some(w),
            Str => m.msgstr = Some(w),
            Form => m.msgstr_plural.push(w),
            Start | Header | More | Blank => unreachable!(),
        }
        state = if k == TComment && matches!(state, Start | Header) { Header } else { k };
    }
    if bad.is_none() && matches!(state, Str | Form) {
        out.push(std::mem::take(&mut m));
    }
    if let Some(l) = bad {
        // whatever comes after it
        for _ in 0..s.below(4) {
            lines.push(s.pick(&["", "msgid \"a\"", "msgstr \"\"", "# x", "#, fuzzy", "\"\""]).to_string());
        }
        c.label("misplaced line");
        c.key(&lines);
        c.note(|| format!("line {l} is misplaced\n{}", lines.join("\n")));
        c.nontrivial(kinds.len() > 5);
        let doc = lines.join("\n");
        return match pofile(doc.as_str()) {
            Ok(f) => Err(format!("line {l} ({:?} after {state:?}) is accepted, read as {:#?}\n{doc}", kinds.last().unwrap(), Cat::of(&f).entries)),
            Err(SyntaxError::Generic { line, .. } | SyntaxError::Custom { line, .. } | SyntaxError::UnescapedDoubleQuoteFound { line, .. }) if line == l => Ok(()),
            Err(e) => Err(format!("line {l} ({:?} after {state:?}) is misplaced, but the error is {e:?}\n{doc}", kinds.last().unwrap())),
        };
    }
    let doc = lines.join("\n") + if s.bool() { "\n" } else { "" };
    c.label("in order");
    c.key(&doc);
    c.note(|| format!("in order\n{doc}"));
    c.nontrivial(kinds.len() >= 5);
    let f = match pofile(doc.as_str()) {
        Ok(f) => Cat::of(&f),
        Err(e) => fail!("rejected: {e}\n{doc}"),
    };
    ensure!(f.header == header, "the header is {:?}, expected {header:?}\n{doc}", f.header);
    ensure!(f.entries.len() >= out.len(), "{} messages, expected {}\n{doc}", f.entries.len(), out.len());
    for (i, (g, w)) in f.entries.iter().zip(&out).enumerate() {
        ensure!(g == w, "message {i} is {g:#?}, expected {w:#?}\n{doc}");
    }
    // so does a message at the end of the text that has an id but no translation
    let rest = f.entries.len() - out.len();
    ensure!(rest == matches!(state, Id | Plural) as usize, "{} messages, expected {}\n{doc}", f.entries.len(), out.len() + matches!(state, Id | Plural) as usize);
    if rest == 1 {
        c.label("ends after an id");
        let g = f.entries.last().expect("message");
        ensure!(*g == m, "the last message is {g:#?}, expected {m:#?}\n{doc}");
    }
    Ok(())
}
