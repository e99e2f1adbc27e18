//! Catalogs and messages as values: C16-C22.
use crate::engine::*;
use crate::gen;
use crate::layout::{self, Style};
use crate::model::*;
use rspolib::prelude::*;
use rspolib::{mofile, pofile, EntryCmpByOptions, FileOptions, MOEntry, MOFile, POEntry, POFile};
use std::cmp::Ordering;
use std::fs;
use std::path::Path;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            quick: 1_000_000,
            thorough: 8_000_000,
            rule: "A case is a catalog over a tiny alphabet, built or read from its text; non-trivial if it has a translated and an untranslated message.",
            assumptions: &["a message has plural translations or a singular one, not both; an MO message with some forms empty is not judged"],
            case: c16,
        },
        Prop {
            id: "C17",
            quick: 2_500_000,
            thorough: 20_000_000,
            rule: "A case is a PO or MO catalog over a tiny alphabet and a set of queries; non-trivial if some query matches some but not all messages.",
            assumptions: &["looking up an MO message by id and the empty context is not judged"],
            case: c17,
        },
        Prop {
            id: "C18",
            quick: 625_000,
            thorough: 5_000_000,
            rule: "A case is a history of up to 25 operations on a PO or MO catalog; non-trivial if some removal hits and a message survives it.",
            assumptions: &[],
            case: c18,
        },
        Prop {
            id: "C19",
            quick: 1_500_000,
            thorough: 12_000_000,
            rule: "A case is a pair of catalogs over a tiny alphabet; non-trivial if they have a message in common and each has one of its own.",
            assumptions: &["the messages of a catalog have distinct id and context, an absent context being the same as an empty one"],
            case: c19,
        },
        Prop {
            id: "C20",
            quick: 3_750_000,
            thorough: 30_000_000,
            rule: "A case is a triple of messages over a tiny alphabet and a set of fields; non-trivial if the set is not empty and the messages are not all equal.",
            assumptions: &["whether an absent field is smaller or greater than a present one is not judged"],
            case: c20,
        },
        Prop {
            id: "C21",
            quick: 2_000_000,
            thorough: 16_000_000,
            rule: "A case is a pair of messages with arbitrary strings; non-trivial if one has a context or plural forms.",
            assumptions: &[],
            case: c21,
        },
        Prop {
            id: "C22",
            quick: 62_500,
            thorough: 500_000,
            rule: "A case is a PO document or MO file, a file name and a wrap width; non-trivial if it has a message.",
            assumptions: &[],
            case: c22,
        },
    ]
}

fn numbered(es: &[M]) -> Vec<POEntry> {
    es.iter()
        .enumerate()
        .map(|(i, m)| {
            let mut e = m.po();
            e.linenum = 1000 + i;
            e
        })
        .collect()
}

fn c16(s: &mut Src, c: &mut Ctx) -> Res {
    let n = match s.weighted(&[10, 2]) {
        0 => s.size(8),
        _ => s.range(0, 60),
    };
    let es: Vec<M> = (0..n).map(|_| gen::tiny_message(s)).collect();
    let mut es = gen::many(s, es, 10_000, |_, _| {});
    let read = s.one_in(3);
    c.key(&(&es, read));
    c.note(|| format!("read from text: {read}, messages:\n  {}", es.iter().map(short).collect::<Vec<_>>().join("\n  ")));
    let mut f = POFile::new("".into());
    if read {
        for e in &mut es {
            e.flags.retain(|x| !x.is_empty());
        }
        let cat = Cat { entries: es.clone(), ..Default::default() };
        let t = cat.po(78).to_string();
        f = pofile(t.as_str()).map_err(|e| format!("rejected: {e}\n{t}"))?;
        es = cat.as_written().entries;
        ensure!(f.entries.len() == es.len(), "{} messages read, {} written", f.entries.len(), es.len());
    } else {
        f.entries = numbered(&es);
    }
    let tr: Vec<bool> = es.iter().map(|m| m.translated()).collect();
    c.nontrivial(tr.iter().any(|x| *x) && tr.iter().any(|x| !*x));
    let at: std::collections::HashMap<*const POEntry, usize> = f.entries.iter().enumerate().map(|(i, e)| (e as *const _, i)).collect();
    let index = |v: Vec<&POEntry>| -> Vec<usize> { v.iter().map(|e| at.get(&(*e as *const _)).copied().unwrap_or(usize::MAX)).collect() };
    let pick = |g: &dyn Fn(&M) -> bool| -> Vec<usize> { (0..es.len()).filter(|i| g(&es[*i])).collect() };
    for (name, got, want) in [
        ("translated", index(f.translated_entries()), pick(&|m| m.translated())),
        ("untranslated", index(f.untranslated_entries()), pick(&|m| !m.translated())),
        ("fuzzy", index(f.fuzzy_entries()), pick(&|m| m.fuzzy() && !m.obsolete)),
        ("obsolete", index(f.obsolete_entries()), pick(&|m| m.obsolete)),
    ] {
        ensure!(got == want, "{name} messages are {got:?}, expected {want:?}");
    }
    for (e, m) in f.entries.iter().zip(&es) {
        ensure!(e.translated() == m.translated(), "translated is {} for {}", e.translated(), short(m));
        ensure!(e.fuzzy() == m.fuzzy(), "fuzzy is {} for {}", e.fuzzy(), short(m));
        let g = MOEntry::from(e);
        let want = match &m.msgstr {
            Some(t) => Some(!t.is_empty()),
            None if m.msgstr_plural.iter().all(|t| t.is_empty()) => Some(false),
            None if m.msgstr_plural.iter().all(|t| !t.is_empty()) => Some(true),
            None => None,
        };
        if let Some(w) = want {
            ensure!(g.translated() == w, "MO translated is {} for {}", g.translated(), short(m));
        }
    }
    let want = if es.is_empty() { 0.0 } else { 100.0 * tr.iter().filter(|x| **x).count() as f64 / es.len() as f64 };
    let got = f.percent_translated() as f64;
    ensure!((got - want).abs() < 1e-3, "{got} percent translated, expected {want}");
    Ok(())
}

fn get<'a>(m: &'a M, by: &str) -> Option<&'a str> {
    Some(match by {
        "msgid" => &m.msgid,
        "msgstr" => m.msgstr.as_deref().unwrap_or(""),
        "msgctxt" => m.msgctxt.as_deref().unwrap_or(""),
        "msgid_plural" => m.msgid_plural.as_deref().unwrap_or(""),
        "previous_msgid" => m.previous_msgid.as_deref().unwrap_or(""),
        "previous_msgid_plural" => m.previous_msgid_plural.as_deref().unwrap_or(""),
        "previous_msgctxt" => m.previous_msgctxt.as_deref().unwrap_or(""),
        _ => return None,
    })
}

const BY: &[&str] = &[
    "msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt", "comment", "", "MSGID", "msgstr_plural", "obsolete", "flags",
];

fn c17(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.size(9);
    let es: Vec<M> = (0..n)
        .map(|_| {
            let mut m = gen::tiny_message(s);
            if s.one_in(6) {
                m.msgid = String::new();
            }
            if s.one_in(8) {
                m.msgctxt = Some(String::new());
            }
            m
        })
        .collect();
    let es = gen::many(s, es, 20_000, |e, i| {
        if i >= 20 {
            e.msgid.push('x')
        }
    });
    let mo = s.one_in(3);
    let queries: Vec<(String, String, Option<String>, bool)> = (0..s.range(2, 8))
        .map(|_| {
            let by = s.pick(BY).to_string();
            // values that occur are more interesting
            let v = match es.len() {
                k if k > 0 && s.upto(2) > 0 => get(&es[s.below(k)], &by).unwrap_or("a").to_string(),
                _ => gen::tiny(s),
            };
            (by, v, gen::opt(s, 1, 2, gen::tiny), s.bool())
        })
        .collect();
    c.key(&(&es, mo, &queries));
    c.note(|| format!("MO {mo}, queries (by, value, context, obsolete too) {queries:?}, messages:\n  {}", es.iter().map(short).collect::<Vec<_>>().join("\n  ")));
    let ctx = |m: &M| m.msgctxt.clone().unwrap_or_default();
    if mo {
        c.label("MO");
        let f = MoCat { metadata: Meta::new(), entries: es.iter().map(mo_of_m).collect() }.mo(78);
        let index = |e: &MOEntry| f.entries.iter().position(|x| std::ptr::eq(x, e)).unwrap_or(usize::MAX);
        for (by, v, ct, _) in &queries {
            let got: Vec<usize> = f.find(v, by, ct.as_deref()).into_iter().map(index).collect();
            let known = !by.starts_with("previous");
            let want: Vec<usize> =
                (0..es.len()).filter(|i| known && get(&es[*i], by) == Some(v) && ct.as_ref().map_or(true, |x| *x == ctx(&es[*i]))).collect();
            c.nontrivial(!want.is_empty() && want.len() < es.len());
            ensure!(got == want, "find({v:?}, {by:?}, {ct:?}) gives {got:?}, expected {want:?}");
            let got = f.find_by_msgid(v).map(index);
            let want = es.iter().position(|m| m.msgid == *v);
            ensure!(got == want, "find_by_msgid({v:?}) gives {got:?}, expected {want:?}");
            if let Some(x) = ct {
                let got = f.find_by_msgid_msgctxt(v, x).map(index);
                let want = es.iter().position(|m| m.msgid == *v && m.msgctxt.as_ref() == Some(x));
                // whether no context is the empty one is not judged here
                if x.is_empty() && got == es.iter().position(|m| m.msgid == *v && ctx(m).is_empty()) {
                    continue;
                }
                ensure!(got == want, "find_by_msgid_msgctxt({v:?}, {x:?}) gives {got:?}, expected {want:?}");
            }
        }
        return Ok(());
    }
    let mut f = POFile::new("".into());
    f.entries = numbered(&es);
    let index = |e: &POEntry| e.linenum.wrapping_sub(1000);
    for (by, v, ct, obs) in &queries {
        let got: Vec<usize> = f.find(v, by, ct.as_deref(), *obs).into_iter().map(index).collect();
        let want: Vec<usize> = (0..es.len())
            .filter(|i| get(&es[*i], by) == Some(v) && ct.as_ref().map_or(true, |x| *x == ctx(&es[*i])) && (*obs || !es[*i].obsolete))
            .collect();
        c.nontrivial(!want.is_empty() && want.len() < es.len());
        ensure!(got == want, "find({v:?}, {by:?}, {ct:?}, {obs}) gives {got:?}, expected {want:?}");
        let got = f.find_by_msgid(v);
        let want = es.iter().position(|m| m.msgid == *v);
        ensure!(got.as_ref().map(index) == want, "find_by_msgid({v:?}) gives {:?}, expected {want:?}", got.as_ref().map(index));
        if let (Some(g), Some(w)) = (&got, want) {
            ensure!(M::of(g) == es[w], "find_by_msgid({v:?}) gives an altered message {}", short(&M::of(g)));
        }
        let x = ct.clone().unwrap_or_default();
        let got = f.find_by_msgid_msgctxt(v, &x);
        let want = es.iter().position(|m| m.msgid == *v && ctx(m) == x);
        ensure!(got.as_ref().map(index) == want, "find_by_msgid_msgctxt({v:?}, {x:?}) gives {:?}, expected {want:?}", got.as_ref().map(index));
        if let (Some(g), Some(w)) = (&got, want) {
            ensure!(M::of(g) == es[w], "find_by_msgid_msgctxt({v:?}, {x:?}) gives an altered message");
        }
    }
    Ok(())
}

fn plain_message(s: &mut Src) -> M {
    let mut m = gen::tiny_message(s);
    m.flags.retain(|x| !x.is_empty());
    m
}

fn change(s: &mut Src, m: &mut M) -> &'static str {
    match s.below(13) {
        0 => {
            m.msgid = gen::tiny1(s);
            "msgid"
        }
        1 => {
            m.msgstr = gen::opt(s, 1, 2, gen::tiny);
            "msgstr"
        }
        2 => {
            m.msgid_plural = gen::opt(s, 1, 2, gen::tiny);
            "msgid_plural"
        }
        3 => {
            let n = s.below(3);
            m.msgstr_plural = (0..n).map(|_| gen::tiny(s)).collect();
            "msgstr_plural"
        }
        4 => {
            m.msgctxt = gen::opt(s, 1, 2, gen::tiny);
            if m.msgid.is_empty() && m.msgctxt.is_none() {
                // that would be the metadata
                m.msgctxt = Some(String::new());
            }
            "msgctxt"
        }
        5 => {
            m.obsolete = !m.obsolete;
            "obsolete"
        }
        6 => {
            m.comment = gen::opt(s, 1, 2, gen::tiny1);
            "comment"
        }
        7 => {
            m.tcomment = gen::opt(s, 1, 2, gen::tiny1);
            "tcomment"
        }
        8 => {
            m.occurrences.push((gen::tiny1(s), "3".into()));
            "occurrences"
        }
        9 => {
            if m.flags.pop().is_none() {
                m.flags.push("fuzzy".into());
            }
            "flags"
        }
        10 => {
            m.previous_msgid = gen::opt(s, 1, 2, gen::tiny);
            "previous_msgid"
        }
        11 => {
            m.previous_msgid_plural = gen::opt(s, 1, 2, gen::tiny);
            "previous_msgid_plural"
        }
        _ => {
            m.previous_msgctxt = gen::opt(s, 1, 2, gen::tiny);
            "previous_msgctxt"
        }
    }
}

/// Changes one item of a list, anywhere in it.
fn nudge(s: &mut Src, m: &mut M) {
    match s.below(3) {
        0 if !m.occurrences.is_empty() => {
            let i = s.below(m.occurrences.len());
            match s.below(4) {
                0 => m.occurrences[i].0 = gen::tiny1(s),
                1 => m.occurrences[i].1 = s.pick(&["1", "2", "10", ""]).to_string(),
                2 => {
                    m.occurrences.remove(i);
                }
                _ => m.occurrences.push(m.occurrences[i].clone()),
            }
        }
        1 if !m.flags.is_empty() => {
            let i = s.below(m.flags.len());
            match s.below(3) {
                0 => m.flags[i] = s.pick(&["fuzzy", "c-format", "Fuzzy", "x"]).to_string(),
                1 => {
                    m.flags.remove(i);
                }
                _ => m.flags.push(m.flags[i].clone()),
            }
        }
        _ if !m.msgstr_plural.is_empty() => {
            let i = s.below(m.msgstr_plural.len());
            match s.below(3) {
                0 => m.msgstr_plural[i] = gen::tiny(s),
                1 => {
                    m.msgstr_plural.remove(i);
                }
                _ => m.msgstr_plural.push(m.msgstr_plural[i].clone()),
            }
        }
        _ => {
            change(s, m);
        }
    }
}

fn c18(s: &mut Src, c: &mut Ctx) -> Res {
    if s.one_in(4) {
        return c18_mo(s, c);
    }
    let mut log: Vec<String> = vec![];
    let mut f = POFile::new("".into());
    let mut model: Vec<(M, usize)> = vec![];
    let mut header: Option<String> = None;
    let mut meta = Meta::new();
    let mut fuzzy = false;
    let mut next = 5000;
    if s.one_in(60) {
        let k = s.range(20, 300);
        log.push(format!("insert {k} messages"));
        for i in 0..k {
            let m = M { msgid: format!("m{i}"), msgstr: Some(format!("t{i}")), ..Default::default() };
            f.entries.push(m.po());
            model.push((m, 0));
        }
    }
    let n = s.range(3, 25);
    for _ in 0..n {
        match s.weighted(&[8, 5, 3, 3, 3, 2, 2, 1, 1, 1]) {
            0 => {
                let m = if s.one_in(4) && !model.is_empty() { model[s.below(model.len())].0.clone() } else { plain_message(s) };
                let line = if s.bool() {
                    0
                } else if s.one_in(3) {
                    s.range(1, 4)
                } else {
                    next
                };
                next += 1;
                let mut e = m.po();
                e.linenum = line;
                let at = if s.bool() { model.len() } else { s.below(model.len() + 1) };
                log.push(format!("insert at {at}: {} line {line}", short(&m)));
                f.entries.insert(at, e);
                model.insert(at, (m, line));
            }
            1 => {
                if model.is_empty() {
                    continue;
                }
                let i = s.below(model.len());
                let what = change(s, &mut model[i].0);
                log.push(format!("change {what} of {i}: {}", short(&model[i].0)));
                let line = f.entries[i].linenum;
                f.entries[i] = model[i].0.po();
                f.entries[i].linenum = line;
            }
            2 => {
                // an equal message, or one that differs somewhere
                let (mut m, mut line) = if !model.is_empty() && s.upto(3) > 0 { model[s.below(model.len())].clone() } else { (plain_message(s), 0) };
                if s.one_in(3) {
                    change(s, &mut m);
                } else if s.one_in(6) {
                    line += 1;
                }
                let mut e = m.po();
                e.linenum = line;
                log.push(format!("remove {} line {line}", short(&m)));
                f.remove(&e);
                let before = model.len();
                model.retain(|x| !(x.0 == m && x.1 == line));
                c.nontrivial(model.len() < before && !model.is_empty());
            }
            3 => {
                let id = if !model.is_empty() && s.bool() { model[s.below(model.len())].0.msgid.clone() } else { gen::tiny(s) };
                log.push(format!("remove by id {id:?}"));
                f.remove_by_msgid(&id);
                if let Some(i) = model.iter().position(|x| x.0.msgid == id) {
                    model.remove(i);
                    c.nontrivial(!model.is_empty());
                }
            }
            4 => {
                let (id, ctx) = if !model.is_empty() && s.upto(2) > 0 {
                    let m = &model[s.below(model.len())].0;
                    (m.msgid.clone(), m.msgctxt.clone().unwrap_or_default())
                } else {
                    (gen::tiny(s), gen::tiny(s))
                };
                log.push(format!("remove by id {id:?} and context {ctx:?}"));
                f.remove_by_msgid_msgctxt(&id, &ctx);
                if let Some(i) = model.iter().position(|x| x.0.msgid == id && x.0.msgctxt.clone().unwrap_or_default() == ctx) {
                    model.remove(i);
                    c.nontrivial(!model.is_empty());
                }
            }
            5 => {
                // reload as text, directly or through a file
                let text = f.to_string();
                let r = if s.bool() {
                    log.push("reload from text".into());
                    pofile(text.as_str())
                } else {
                    log.push("save and load".into());
                    let p = c.scratch.join("history.po");
                    f.save(p.to_str().unwrap());
                    pofile(p.to_str().unwrap())
                };
                f = match r {
                    Ok(f) => f,
                    Err(e) => fail!("after {}\nthe text is rejected: {e}\n{text}", log.join("\n")),
                };
                let w = Cat { header: header.clone(), metadata: meta.clone(), fuzzy, entries: model.iter().map(|x| x.0.clone()).collect() }.as_written();
                header = w.header;
                // line numbers are not part of the text's content
                model = w.entries.into_iter().enumerate().map(|(i, m)| (m, f.entries.get(i).map_or(0, |e| e.linenum))).collect();
                c.label("reload");
            }
            6 => {
                // a clone shares nothing
                log.push("empty a clone".into());
                let mut g = f.clone();
                while let Some(e) = g.entries.first().cloned() {
                    let before = g.entries.len();
                    g.remove(&e);
                    ensure!(g.entries.len() < before, "after\n  {}\na message of a clone cannot be removed", log.join("\n  "));
                }
            }
            7 => {
                log.push("merge a message with another".into());
                if !model.is_empty() {
                    let i = s.below(model.len());
                    let m = plain_message(s);
                    let mut e = m.po();
                    e.linenum = 7;
                    f.entries[i].merge(e);
                    model[i] = (m, 7);
                }
            }
            8 if s.one_in(3) => {
                header = s.pick(&[None, Some("h"), Some("two\n\nlines")]).map(|h| h.to_string());
                fuzzy = s.bool();
                log.push(format!("set header {header:?}, fuzzy mark {fuzzy}"));
                f.header = header.clone();
                f.metadata_is_fuzzy = fuzzy;
            }
            8 => {
                let k = gen::tiny1(s);
                let v = gen::tiny(s).trim().to_string();
                log.push(format!("set metadata {k:?} {v:?}"));
                f.metadata.insert(k.clone(), v.clone());
                meta.insert(k, v);
            }
            _ => {
                log.push("rebuild from the list of messages".into());
                let g = POFile::from(f.entries.iter().collect::<Vec<_>>());
                f.entries = g.entries;
            }
        }
        let got: Vec<M> = f.entries.iter().map(M::of).collect();
        let want: Vec<M> = model.iter().map(|x| x.0.clone()).collect();
        if let Some(d) = diff_entries(&got, &want) {
            fail!("after\n  {}\n{d}", log.join("\n  "));
        }
        for (i, (e, m)) in f.entries.iter().zip(&model).enumerate() {
            ensure!(e.linenum == m.1, "after\n  {}\nmessage {i} is another one (line {}, expected {})", log.join("\n  "), e.linenum, m.1);
        }
        let got: Meta = f.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(got == meta, "after\n  {}\nmetadata is {got:?}, expected {meta:?}", log.join("\n  "));
        ensure!(f.header == header, "after\n  {}\nheader is {:?}, expected {header:?}", log.join("\n  "), f.header);
        ensure!(f.metadata_is_fuzzy == fuzzy, "after\n  {}\nfuzzy mark of the metadata is {}", log.join("\n  "), f.metadata_is_fuzzy);
    }
    c.key(&log);
    c.note(|| log.join("\n"));
    Ok(())
}

fn c18_mo(s: &mut Src, c: &mut Ctx) -> Res {
    let mut log: Vec<String> = vec![];
    let mut f = MOFile::new("".into());
    let mut model: Vec<Mo> = vec![];
    let mut meta = Meta::new();
    if s.one_in(60) {
        let k = s.range(20, 300);
        log.push(format!("insert {k} messages"));
        for i in 0..k {
            let m = mo_of_m(&M { msgid: format!("m{i}"), msgstr: Some(format!("t{i}")), ..Default::default() });
            f.entries.push(m.mo());
            model.push(m);
        }
    }
    let n = s.range(3, 25);
    c.label("MO");
    for _ in 0..n {
        match s.weighted(&[8, 5, 3, 3, 3, 1, 1]) {
            0 => {
                let m = if s.one_in(4) && !model.is_empty() { model[s.below(model.len())].clone() } else { mo_of_m(&gen::tiny_message(s)) };
                let at = s.below(model.len() + 1);
                log.push(format!("insert at {at}: {m:?}"));
                f.entries.insert(at, m.mo());
                model.insert(at, m);
            }
            1 => {
                if model.is_empty() {
                    continue;
                }
                let i = s.below(model.len());
                let m = mo_of_m(&gen::tiny_message(s));
                log.push(format!("merge {m:?} into {i}"));
                f.entries[i].merge(m.mo());
                model[i] = m;
            }
            2 => {
                let mut m = if !model.is_empty() && s.upto(3) > 0 { model[s.below(model.len())].clone() } else { mo_of_m(&gen::tiny_message(s)) };
                if s.one_in(3) {
                    match s.below(5) {
                        0 => m.msgid.push('x'),
                        1 => m.msgstr = gen::opt(s, 1, 2, gen::tiny),
                        2 => m.msgid_plural = gen::opt(s, 1, 2, gen::tiny),
                        3 => m.msgstr_plural.push("y".into()),
                        _ => m.msgctxt = gen::opt(s, 1, 2, gen::tiny),
                    }
                }
                log.push(format!("remove {m:?}"));
                f.remove(&m.mo());
                let before = model.len();
                model.retain(|x| *x != m);
                c.nontrivial(model.len() < before && !model.is_empty());
            }
            3 => {
                let id = if !model.is_empty() && s.bool() { model[s.below(model.len())].msgid.clone() } else { gen::tiny(s) };
                log.push(format!("remove by id {id:?}"));
                f.remove_by_msgid(&id);
                if let Some(i) = model.iter().position(|x| x.msgid == id) {
                    model.remove(i);
                    c.nontrivial(!model.is_empty());
                }
            }
            4 => {
                let (id, ctx) = if !model.is_empty() && s.upto(2) > 0 {
                    let m = &model[s.below(model.len())];
                    (m.msgid.clone(), m.msgctxt.clone().unwrap_or_default())
                } else {
                    (gen::tiny(s), gen::tiny(s))
                };
                log.push(format!("remove by id {id:?} and context {ctx:?}"));
                f.remove_by_msgid_msgctxt(&id, &ctx);
                if let Some(i) = model.iter().position(|x| x.msgid == id && x.msgctxt.clone().unwrap_or_default() == ctx) {
                    model.remove(i);
                    c.nontrivial(!model.is_empty());
                }
            }
            5 => {
                log.push("rebuild from the list of messages".into());
                f = MOFile::from(f.entries.iter().collect::<Vec<_>>());
                meta.clear();
            }
            _ => {
                let (k, v) = (gen::tiny1(s), gen::tiny(s));
                log.push(format!("set metadata {k:?} {v:?}"));
                f.metadata.insert(k.clone(), v.clone());
                meta.insert(k, v);
            }
        }
        let got: Vec<Mo> = f.entries.iter().map(Mo::of).collect();
        ensure!(got == model, "after\n  {}\nthe messages are {got:?}, expected {model:?}", log.join("\n  "));
        let got: Meta = f.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(got == meta, "after\n  {}\nmetadata is {got:?}, expected {meta:?}", log.join("\n  "));
    }
    c.key(&log);
    c.note(|| log.join("\n"));
    Ok(())
}

fn keyed(m: &M) -> (String, String) {
    (m.msgid.clone(), m.msgctxt.clone().unwrap_or_default())
}

fn distinct(es: Vec<M>) -> Vec<M> {
    let mut seen = std::collections::HashSet::new();
    es.into_iter().filter(|m| seen.insert(keyed(m))).collect()
}

fn c19(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.size(7);
    let k = s.size(7);
    let a = Cat {
        header: gen::opt(s, 1, 2, gen::tiny),
        metadata: if s.bool() { gen::metadata(s) } else { Meta::new() },
        fuzzy: s.bool(),
        entries: distinct((0..n).map(|_| gen::tiny_message(s)).collect()),
    };
    let b = Cat {
        header: gen::opt(s, 1, 2, gen::tiny),
        metadata: if s.bool() { gen::metadata(s) } else { Meta::new() },
        fuzzy: s.bool(),
        entries: distinct((0..k).map(|_| gen::tiny_message(s)).collect()),
    };
    let (mut a, mut b) = (a, b);
    if s.one_in(20_000) {
        // merging is quadratic
        let n = gen::big(s).min(1500);
        for (c, k) in [(&mut a, s.range(0, n)), (&mut b, s.range(0, n))] {
            for i in k..n {
                c.entries.push(M { msgid: format!("m{i}"), msgstr: Some("t".into()), ..M::default() });
            }
        }
    }
    c.key(&(&a, &b));
    c.note(|| format!("catalog {}\nreference {}", show_cat(&a), show_cat(&b)));
    let ka: Vec<_> = a.entries.iter().map(keyed).collect();
    let kb: Vec<_> = b.entries.iter().map(keyed).collect();
    c.nontrivial(ka.iter().any(|x| kb.contains(x)) && ka.iter().any(|x| !kb.contains(x)) && kb.iter().any(|x| !ka.contains(x)));
    let mut f = a.po(40);
    for (i, e) in f.entries.iter_mut().enumerate() {
        e.linenum = i + 1;
    }
    let reference = b.po(78);
    f.merge(reference);
    let got = Cat::of(&f);
    ensure!(got.header == a.header, "header changed from {:?} to {:?}", a.header, got.header);
    ensure!(got.metadata == a.metadata, "metadata changed from {:?} to {:?}", a.metadata, got.metadata);
    ensure!(got.fuzzy == a.fuzzy, "metadata fuzzy mark changed");
    ensure!(f.options.wrapwidth == 40, "the wrap width changed");
    let new: Vec<&M> = b.entries.iter().filter(|m| !ka.contains(&keyed(m))).collect();
    ensure!(got.entries.len() == a.entries.len() + new.len(), "{} messages after merging, expected {}: {}", got.entries.len(), a.entries.len() + new.len(), show_cat(&got));
    for (i, (m, g)) in a.entries.iter().zip(&got.entries).enumerate() {
        match b.entries.iter().find(|x| keyed(x) == keyed(m)) {
            None => {
                let mut w = m.clone();
                w.obsolete = true;
                ensure!(*g == w, "message {i}, not in the reference, became {}", short(g));
                ensure!(f.entries[i].linenum == i + 1, "message {i}, not in the reference, is now of line {}", f.entries[i].linenum);
            }
            Some(r) => {
                // updated from the reference, or not touched at all (known)
                if g == r {
                    continue;
                }
                ensure!(g == m, "message {i}, in both catalogs, became {}\nfrom {}\nreference {}", short(g), short(m), short(r));
                let k = "a message present in both catalogs is not updated from the reference when merging catalogs";
                if !c.known.iter().any(|x| x == k) {
                    c.known.push(k.into());
                }
            }
        }
    }
    for (w, g) in new.iter().zip(&got.entries[a.entries.len()..]) {
        ensure!(g == *w, "the reference's message was added as {}\nexpected {}", short(g), short(w));
    }
    Ok(())
}

const NAMES: [&str; 8] = ["obsolete", "occurrences", "flags", "msgctxt", "msgid_plural", "msgstr_plural", "msgid", "msgstr"];

fn choose(o: EntryCmpByOptions, i: usize, on: bool) -> EntryCmpByOptions {
    match i {
        0 => o.by_obsolete(on),
        1 => o.by_occurrences(on),
        2 => o.by_flags(on),
        3 => o.by_msgctxt(on),
        4 => o.by_msgid_plural(on),
        5 => o.by_msgstr_plural(on),
        6 => o.by_msgid(on),
        _ => o.by_msgstr(on),
    }
}

fn options(mask: u32, how: usize, s: &mut Src) -> EntryCmpByOptions {
    let on = |i: usize| mask & (1 << i) != 0;
    match how {
        0 => {
            let o = if s.bool() { EntryCmpByOptions::new().by_all(false) } else { EntryCmpByOptions::default() };
            o.by_obsolete(on(0)).by_occurrences(on(1)).by_flags(on(2)).by_msgctxt(on(3)).by_msgid_plural(on(4)).by_msgstr_plural(on(5)).by_msgid(on(6)).by_msgstr(on(7))
        }
        3 => {
            // all or none, whatever was chosen before, and then the exceptions
            let all = s.bool();
            let mut o = EntryCmpByOptions::new();
            for i in 0..8 {
                if s.bool() {
                    o = choose(o, i, s.bool());
                }
            }
            o = o.by_all(all);
            for i in 0..8 {
                if on(i) != all || s.one_in(4) {
                    o = choose(o, i, on(i));
                }
            }
            o
        }
        1 => {
            // only what differs from the default
            let v: Vec<(String, bool)> = (0..8).filter(|i| !on(*i)).map(|i| (NAMES[i].to_string(), false)).collect();
            EntryCmpByOptions::from(&v)
        }
        _ => {
            let mut v: Vec<(String, bool)> = (0..8).map(|i| (NAMES[i].to_string(), on(i))).collect();
            v.push(("nothing".into(), true));
            let k = s.below(v.len());
            v.rotate_left(k);
            if s.bool() {
                v.reverse();
            }
            EntryCmpByOptions::from(&v)
        }
    }
}

fn opt_cmp(a: &Option<String>, b: &Option<String>) -> Option<Ordering> {
    match (a, b) {
        (Some(x), Some(y)) => Some(x.cmp(y)),
        (None, None) => Some(Ordering::Equal),
        _ => None,
    }
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// Some(ordering), or None if they differ in a field that only one has.
fn reference(a: &M, b: &M, mask: u32, mo: bool) -> Option<Ordering> {
    let on = |i: usize| mask & (1 << i) != 0;
    let mut steps: Vec<Option<Ordering>> = vec![];
    if !mo {
        if on(0) {
            steps.push(Some(b.obsolete.cmp(&a.obsolete)));
        }
        if on(1) {
            steps.push(Some(sorted(&a.occurrences).cmp(&sorted(&b.occurrences))));
        }
        if on(2) {
            steps.push(Some(sorted(&a.flags).cmp(&sorted(&b.flags))));
        }
    }
    if on(3) {
        steps.push(opt_cmp(&a.msgctxt, &b.msgctxt));
    }
    if on(4) {
        steps.push(opt_cmp(&a.msgid_plural, &b.msgid_plural));
    }
    if on(5) {
        steps.push(Some(sorted(&a.msgstr_plural).cmp(&sorted(&b.msgstr_plural))));
    }
    if on(6) {
        steps.push(Some(a.msgid.cmp(&b.msgid)));
    }
    if on(7) {
        steps.push(opt_cmp(&a.msgstr, &b.msgstr));
    }
    for x in steps {
        if x != Some(Ordering::Equal) {
            return x;
        }
    }
    Some(Ordering::Equal)
}

/// Sometimes an optional field that is absent, empty or nearly so.
fn edge(s: &mut Src, m: &mut M) {
    if !s.one_in(4) {
        return;
    }
    let v = match s.below(5) {
        0 => None,
        k => Some(["", "\0", "\u{1}", " "][k - 1].to_string()),
    };
    match s.below(3) {
        0 => m.msgctxt = v,
        1 => m.msgid_plural = v,
        _ => m.msgstr = v,
    }
}

fn m_occurrences(s: &mut Src, m: &mut M, n: usize) {
    m.occurrences = (0..n).map(|_| (gen::tiny1(s), s.pick(&["1", "2", "10", ""]).to_string())).collect();
}

fn c20(s: &mut Src, c: &mut Ctx) -> Res {
    let mut a = gen::tiny_message(s);
    if s.one_in(3) {
        // longer lists
        let n = s.range(3, 14);
        match s.below(3) {
            0 => m_occurrences(s, &mut a, n),
            1 => a.flags = (0..n).map(|_| s.pick(&["fuzzy", "c-format", "Fuzzy", "x", "y", "z"]).to_string()).collect(),
            _ => a.msgstr_plural = (0..n).map(|_| gen::tiny(s)).collect(),
        }
    }
    edge(s, &mut a);
    let near = |s: &mut Src, a: &M| {
        let mut b = a.clone();
        match s.below(5) {
            4 => nudge(s, &mut b),
            0 => b = gen::tiny_message(s),
            1 => {
                change(s, &mut b);
            }
            2 => {
                change(s, &mut b);
                change(s, &mut b);
            }
            _ => {
                // the same lists in another order
                b.occurrences.reverse();
                b.flags.reverse();
                b.msgstr_plural.reverse();
                if s.bool() {
                    change(s, &mut b);
                }
            }
        }
        edge(s, &mut b);
        b
    };
    let b = near(s, &a);
    let d = near(s, &b);
    let mask = match s.below(3) {
        0 => 0xff,
        1 => 1 << s.below(8),
        _ => s.upto(255) as u32,
    };
    let how = s.below(4);
    let mo = s.one_in(3);
    let o = options(mask, how, s);
    c.key(&(&a, &b, &d, mask, how, mo));
    c.note(|| format!("MO {mo}, fields {:?}\n  {}\n  {}\n  {}", (0..8).filter(|i| mask & (1 << i) != 0).map(|i| NAMES[i]).collect::<Vec<_>>(), short(&a), short(&b), short(&d)));
    c.nontrivial(mask != 0 && !(a == b && b == d));
    let (pa, pb, pd) = (a.po(), b.po(), d.po());
    let cmp = |x: &POEntry, y: &POEntry| if mo { MOEntry::from(x).cmp_by(&MOEntry::from(y), &o) } else { x.cmp_by(y, &o) };
    for (m, p, n, q) in [(&a, &pa, &b, &pb), (&b, &pb, &d, &pd), (&a, &pa, &d, &pd), (&a, &pa, &a, &pa)] {
        let got = cmp(p, q);
        match reference(m, n, mask, mo) {
            Some(w) => ensure!(got == w, "comparing gives {got:?}, expected {w:?}\n  {}\n  {}", short(m), short(n)),
            None => ensure!(got != Ordering::Equal, "messages that differ compare equal\n  {}\n  {}", short(m), short(n)),
        }
        ensure!(cmp(q, p) == got.reverse(), "swapping the operands does not reverse {got:?}\n  {}\n  {}", short(m), short(n));
    }
    let (ab, bd, ad) = (cmp(&pa, &pb), cmp(&pb, &pd), cmp(&pa, &pd));
    if ab != Ordering::Greater && bd != Ordering::Greater {
        let w = if ab == Ordering::Equal && bd == Ordering::Equal { Ordering::Equal } else { Ordering::Less };
        ensure!(ad == w, "not transitive: {ab:?}, {bd:?}, but {ad:?}");
    }
    if ab != Ordering::Less && bd != Ordering::Less {
        let w = if ab == Ordering::Equal && bd == Ordering::Equal { Ordering::Equal } else { Ordering::Greater };
        ensure!(ad == w, "not transitive: {ab:?}, {bd:?}, but {ad:?}");
    }
    Ok(())
}

fn full_message(s: &mut Src) -> M {
    let mut m = gen::message(s);
    if s.one_in(4) {
        m.msgstr = gen::opt(s, 1, 2, gen::anytext);
        m.msgid_plural = gen::opt(s, 1, 2, gen::anytext);
        let n = s.below(4);
        m.msgstr_plural = (0..n).map(|_| gen::anytext(s)).collect();
    }
    m
}

fn c21(s: &mut Src, c: &mut Ctx) -> Res {
    let a = full_message(s);
    let b = full_message(s);
    c.key(&(&a, &b));
    c.note(|| format!("{}\n{}", short(&a), short(&b)));
    c.nontrivial([&a, &b].iter().any(|m| m.msgctxt.is_some() || !m.msgstr_plural.is_empty()));
    // conversions
    let mut pa = a.po();
    pa.linenum = s.below(100);
    let ma = MOEntry::from(&pa);
    ensure!(Mo::of(&ma) == mo_of_m(&a), "as MO message: {:?}, expected {:?}", Mo::of(&ma), mo_of_m(&a));
    ensure!(M::of(&pa) == a, "converting changed the original");
    let back = POEntry::from(&ma);
    let want = M { msgid: a.msgid.clone(), msgstr: a.msgstr.clone(), msgid_plural: a.msgid_plural.clone(), msgstr_plural: a.msgstr_plural.clone(), msgctxt: a.msgctxt.clone(), ..Default::default() };
    ensure!(back.linenum == 0, "line number {} after converting", back.linenum);
    ensure!(M::of(&back) == want, "back as PO message: {}, expected {}", short(&M::of(&back)), short(&want));
    // merging
    let mut x = pa.clone();
    let mut pb = b.po();
    pb.linenum = s.below(100);
    x.merge(pb.clone());
    ensure!(M::of(&x) == b && x.linenum == pb.linenum, "merged: {}\nexpected {}", short(&M::of(&x)), short(&b));
    ensure!(x == pb, "a merged message is not equal to the one merged into it");
    let mut y = ma.clone();
    y.merge(MOEntry::from(&pb));
    ensure!(Mo::of(&y) == mo_of_m(&b), "merged MO message: {:?}, expected {:?}", Mo::of(&y), mo_of_m(&b));
    // keys
    for m in [&a, &b] {
        let w = mo_of_m(m).key();
        let (k, l) = (m.po().msgid_eot_msgctxt(), MOEntry::from(&m.po()).msgid_eot_msgctxt());
        ensure!(k == w, "key {k:?}, expected {w:?}");
        ensure!(l == w, "MO key {l:?}, expected {w:?}");
    }
    // short constructors
    let t = a.msgid.as_str();
    let u = b.msgid.as_str();
    let e = M { msgid: t.into(), ..Default::default() };
    let n = s.upto(u64::MAX) as usize;
    for e in [POEntry::from(n), POEntry::new(n)] {
        ensure!(M::of(&e) == M::default() && e.linenum == n, "message from line {n}: {}, line {}", short(&M::of(&e)), e.linenum);
    }
    ensure!(M::of(&POEntry::from(t)) == e, "message from an id: {}", short(&M::of(&POEntry::from(t))));
    ensure!(Mo::of(&MOEntry::from(t)) == mo_of_m(&e), "MO message from an id: {:?}", Mo::of(&MOEntry::from(t)));
    let e = M { msgid: t.into(), msgstr: Some(u.into()), ..Default::default() };
    ensure!(M::of(&POEntry::from((t, u))) == e, "message from id and translation: {}", short(&M::of(&POEntry::from((t, u)))));
    // lists of messages
    let f = POFile::from(vec![&pa, &pb]);
    ensure!(f.entries == [pa.clone(), pb.clone()] && f.metadata.is_empty(), "catalog from messages");
    let g = MOFile::from(vec![&ma, &y]);
    ensure!(g.entries == [ma, y] && g.metadata.is_empty(), "MO catalog from messages");
    Ok(())
}

fn c22(s: &mut Src, c: &mut Ctx) -> Res {
    let ww = gen::width(s);
    let path = c.scratch.join(gen::file_name(s));
    let p = gen::spell(s, &path);
    // whatever was there is replaced
    let junk = "msgid \"old\"\n".repeat(s.size(300));
    if s.bool() {
        fs::write(&path, &junk).expect("scratch");
    } else {
        let _ = fs::remove_file(&path);
    }
    let r = if s.one_in(3) { c22_mo(s, c, ww, &path, &p) } else { c22_po(s, c, ww, &path, &p) };
    let _ = fs::remove_file(&path);
    r
}

fn full(f: &POFile) -> (Cat, Vec<usize>) {
    (Cat::of(f), f.entries.iter().map(|e| e.linenum).collect())
}

fn c22_po(s: &mut Src, c: &mut Ctx, ww: usize, path: &Path, p: &str) -> Res {
    let con = layout::content(s, 5);
    let st = Style::any(s);
    let text = layout::print(s, &con, st).render();
    c.key(&(&text, ww, p));
    c.note(|| format!("wrap width {ww}, path {p:?}, document {text:?}"));
    c.nontrivial(!con.entries.is_empty());
    let base = pofile(text.as_str()).map_err(|e| format!("rejected: {e}\n{text}"))?;
    let want = full(&base);
    ensure!(base.options.wrapwidth == 78, "default wrap width {}", base.options.wrapwidth);
    // saving
    let mut at = base.clone();
    at.options.wrapwidth = ww;
    for (how, g) in [("save", 0), ("save_as_pofile", 1)] {
        if g == 0 {
            at.save(p);
        } else {
            fs::write(path, "x".repeat(at.to_string().len() + 10)).expect("scratch");
            at.save_as_pofile(p);
        }
        let got = fs::read(path).map_err(|e| format!("{how} wrote nothing: {e}"))?;
        ensure!(got == at.to_string().as_bytes(), "{how} wrote {:?}, expected {:?}", String::from_utf8_lossy(&got), at.to_string());
    }
    let mut fit = Cat::of(&at);
    gen::fit_comments(&mut fit, ww);
    if fit == Cat::of(&at) {
        let l = pofile(p).map_err(|e| format!("the saved file is rejected: {e}"))?;
        if let Some(d) = diff(&Cat::of(&l), &fit.as_written()) {
            fail!("loading the saved file: {d}");
        }
    }
    // reading
    fs::write(path, &text).expect("scratch");
    let opts = |f: FileOptions| FileOptions::from(&f);
    let forms: Vec<(&str, Result<POFile, _>, usize)> = vec![
        ("path", pofile(p), 78),
        ("bytes", pofile(text.clone().into_bytes()), 78),
        ("path and width", pofile((p, ww)), ww),
        ("text and width", pofile((text.as_str(), ww)), ww),
        ("bytes and width", pofile((text.clone().into_bytes(), ww)), ww),
        ("Path", pofile(path), 78),
        ("options from path", pofile(opts(p.into())), 78),
        ("options from text and width", pofile(opts((text.as_str(), ww).into())), ww),
        ("options from bytes", pofile(opts(text.clone().into_bytes().into())), 78),
        ("options by hand", pofile(FileOptions { path_or_content: p.to_string(), wrapwidth: ww, byte_content: None }), ww),
        ("catalog from path", Ok(POFile::from(p)), 78),
        ("catalog from text", Ok(POFile::from(text.as_str())), 78),
        ("catalog from Path", Ok(POFile::from(path)), 78),
    ];
    for (how, r, w) in forms {
        let f = r.map_err(|e| format!("{how}: rejected: {e}"))?;
        let got = full(&f);
        if let Some(d) = diff(&got.0, &want.0) {
            fail!("{how}: {d}");
        }
        ensure!(got.1 == want.1, "{how}: line numbers {:?}, expected {:?}", got.1, want.1);
        ensure!(f.options.wrapwidth == w, "{how}: wrap width {}, expected {w}", f.options.wrapwidth);
        let mut t = base.clone();
        t.options.wrapwidth = w;
        ensure!(f.to_string() == t.to_string(), "{how}: text differs");
    }
    Ok(())
}

fn c22_mo(s: &mut Src, c: &mut Ctx, ww: usize, path: &Path, p: &str) -> Res {
    let cat = gen::mo_catalog(s, 5, false);
    c.key(&(&cat, ww, p));
    c.note(|| format!("wrap width {ww}, path {p:?}, {}", show_mo(&cat)));
    c.nontrivial(!cat.entries.is_empty());
    c.label("MO");
    let f = cat.mo(ww);
    f.save(p);
    let b = fs::read(path).map_err(|e| format!("save wrote nothing: {e}"))?;
    ensure!(b == f.as_bytes().to_vec(), "save wrote other bytes");
    fs::write(path, vec![1u8; b.len() + 10]).expect("scratch");
    f.save_as_mofile(p);
    ensure!(fs::read(path).ok().as_ref() == Some(&b), "save_as_mofile wrote other bytes");
    f.save_as_pofile(p);
    ensure!(fs::read(path).ok() == Some(f.to_string().into_bytes()), "save_as_pofile wrote another text");
    f.save(p);
    let want = cat.sorted();
    let forms: Vec<(&str, Result<MOFile, _>, usize)> = vec![
        ("path", mofile(p), 78),
        ("bytes", mofile(b.clone()), 78),
        ("path and width", mofile((p, ww)), ww),
        ("bytes and width", mofile((b.clone(), ww)), ww),
        ("big-endian bytes and width", mofile((f.as_bytes_be().to_vec(), ww)), ww),
        ("Path", mofile(path), 78),
        ("options from bytes and width", mofile(FileOptions::from(&FileOptions::from((b.clone(), ww)))), ww),
        ("options from path", mofile(FileOptions::from(&FileOptions::from(p))), 78),
        ("catalog from Path", Ok(MOFile::from(path)), 78),
    ];
    for (how, r, w) in forms {
        let g = r.map_err(|e| format!("{how}: rejected: {e}"))?;
        if let Some(d) = diff_mo(&MoCat::of(&g).canon(), &want) {
            fail!("{how}: {d}");
        }
        ensure!(g.options.wrapwidth == w, "{how}: wrap width {}, expected {w}", g.options.wrapwidth);
        ensure!(g.as_bytes().to_vec() == b, "{how}: bytes differ");
    }
    Ok(())
}
