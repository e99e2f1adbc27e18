//! C37: results depend on nothing but what is given.
use super::mob::pairs_of;
use super::po::{disturb, soup};
use super::wr::slashy;
use crate::engine::*;
use crate::gen;
use crate::layout::{self, Style};
use crate::mo;
use crate::model::*;
use rspolib::prelude::*;
use rspolib::{escaping, mofile, pofile, EntryCmpByOptions, MOFile, POFile};
use std::fs;
use std::path::Path;
use std::sync::OnceLock;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C37",
        quick: 100_000,
        thorough: 1_200_000,
        rule: "A case is a list of calls that read, write, compile, save, escape, compare or merge something, many of them alike; they are made in order, again in another order with repetitions and, in every sixth case, in several threads at the same time; non-trivial if at least four calls have at least three different results.",
        assumptions: &["no thread writes a file that another one reads"],
        case: c37,
    }]
}

#[derive(Clone, Debug, Hash)]
enum Op {
    Text(String, Option<usize>),
    Bytes(Vec<u8>, Option<usize>),
    File(usize, Vec<u8>, Option<usize>),
    Path(usize),
    Mo(Vec<u8>, Option<usize>),
    MoFile(usize, Vec<u8>),
    Write(Cat, usize),
    WriteMo(MoCat, usize),
    Save(usize, Cat, usize),
    SaveMo(usize, MoCat),
    Line(Cat, usize),
    Escape(String),
    Unescape(String),
    Compare(Cat),
    Merge(Cat, Cat),
}

fn said(f: &POFile) -> String {
    let lines: Vec<usize> = f.entries.iter().map(|e| e.linenum).collect();
    let views = (f.translated_entries().len(), f.untranslated_entries().len(), f.fuzzy_entries().len(), f.obsolete_entries().len());
    format!(
        "{:?}\nlines {lines:?} views {views:?} share {} width {}\n{f}\nMO {:?}",
        Cat::of(f),
        f.percent_translated(),
        f.options.wrapwidth,
        MOFile::from(f).as_bytes()
    )
}

fn said_mo(f: &MOFile) -> String {
    format!(
        "{:?} {:?} {:?} width {}\n{f}\nMO {:?} {:?}",
        MoCat::of(f),
        f.magic_number,
        f.version,
        f.options.wrapwidth,
        f.as_bytes(),
        f.as_bytes_be()
    )
}

fn po_outcome(r: Result<POFile, rspolib::errors::SyntaxError>) -> String {
    match r {
        Ok(f) => said(&f),
        Err(e) => format!("error: {e}"),
    }
}

fn mo_outcome(r: Result<MOFile, rspolib::errors::IOError>) -> String {
    match r {
        Ok(f) => said_mo(&f),
        Err(e) => format!("error: {e}"),
    }
}

/// The directory as seen from the one this process was started in.
fn relative(dir: &Path) -> String {
    static CWD: OnceLock<Option<std::path::PathBuf>> = OnceLock::new();
    let cwd = CWD.get_or_init(|| std::env::current_dir().ok());
    match cwd.as_ref().and_then(|d| dir.strip_prefix(d).ok()).and_then(|r| r.to_str()) {
        Some("") => "./".into(),
        Some(r) => format!("./{r}/"),
        None => format!("{}/", dir.display()),
    }
}

fn made(op: &Op, dir: &Path) -> String {
    let at = |k: &usize| dir.join(format!("slot{k}")).to_str().unwrap().to_string();
    let rel = relative(dir);
    let name = |k: &usize| if k % 2 == 1 { format!("{rel}slot{k}") } else { at(k) };
    let r = match op {
        Op::Text(t, None) => po_outcome(pofile(t.as_str())),
        Op::Text(t, Some(w)) => po_outcome(pofile((t.as_str(), *w))),
        Op::Bytes(b, None) => po_outcome(pofile(b.clone())),
        Op::Bytes(b, Some(w)) => po_outcome(pofile((b.clone(), *w))),
        Op::File(k, b, w) => {
            fs::write(at(k), b).expect("scratch");
            match w {
                Some(w) => po_outcome(pofile((name(k).as_str(), *w))),
                None => po_outcome(pofile(name(k).as_str())),
            }
        }
        Op::Path(k) => {
            // no such file: the path is taken as content
            let _ = fs::remove_file(at(k));
            po_outcome(pofile(at(k).as_str()))
        }
        Op::Mo(b, None) => mo_outcome(mofile(b.clone())),
        Op::Mo(b, Some(w)) => mo_outcome(mofile((b.clone(), *w))),
        Op::MoFile(k, b) => {
            fs::write(at(k), b).expect("scratch");
            mo_outcome(mofile(name(k).as_str()))
        }
        Op::Write(c, w) => said(&c.po(*w)),
        Op::WriteMo(c, w) => said_mo(&c.mo(*w)),
        Op::Save(k, c, w) => {
            let f = c.po(*w);
            f.save(&at(k));
            let t = fs::read(at(k)).expect("saved");
            f.save_as_mofile(&at(k));
            format!("{t:?} {:?}", fs::read(at(k)).expect("saved"))
        }
        Op::SaveMo(k, c) => {
            let f = c.mo(78);
            f.save(&at(k));
            let t = fs::read(at(k)).expect("saved");
            f.save_as_pofile(&at(k));
            format!("{t:?} {:?}", fs::read(at(k)).expect("saved"))
        }
        Op::Line(c, w) => c.entries.iter().map(|m| m.po().to_string_with_wrapwidth(*w)).collect(),
        Op::Escape(t) => escaping::escape(t).to_string(),
        Op::Unescape(t) => format!("{:?}", escaping::unescape(t).map(|x| x.to_string()).map_err(|e| e.to_string())),
        Op::Compare(c) => {
            let es: Vec<_> = c.entries.iter().map(M::po).collect();
            let by = EntryCmpByOptions::new().by_all(true);
            es.iter().flat_map(|a| es.iter().map(|b| format!("{:?} ", a.cmp_by(b, &by))).collect::<Vec<_>>()).collect()
        }
        Op::Merge(a, b) => {
            let mut f = a.po(78);
            f.merge(b.po(78));
            said(&f)
        }
    };
    r.replace(dir.to_str().unwrap(), "DIR").replace(&format!("{rel}slot"), "DIR/slot")
}

fn document(s: &mut Src) -> String {
    let con = layout::content(s, 3);
    let st = Style::any(s);
    let d = layout::print(s, &con, st);
    let t = d.render();
    if s.one_in(3) {
        let mut lines: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
        let n = s.range(1, 3);
        disturb(s, &mut lines, n);
        return lines.join("\n");
    }
    t
}

/// The text with one character replaced, its length kept.
fn altered(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let at: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].is_ascii_alphabetic()).collect();
    if at.is_empty() {
        return format!("{t}\n");
    }
    let i = at[s.below(at.len())];
    cs[i] = if cs[i] == 'x' { 'y' } else { 'x' };
    cs.into_iter().collect()
}

fn small_cat(s: &mut Src) -> Cat {
    let mut c = gen::catalog(s, 3);
    c.entries.truncate(40);
    c
}

fn tiny_cat(s: &mut Src) -> Cat {
    let n = s.size(5);
    let mut seen = std::collections::HashSet::new();
    let entries = (0..n).map(|_| gen::tiny_message(s)).filter(|m| seen.insert((m.msgid.clone(), m.msgctxt.clone()))).collect();
    Cat { header: None, metadata: gen::metadata(s), fuzzy: s.bool(), entries }
}

fn small_mo(s: &mut Src) -> MoCat {
    let mut c = gen::mo_catalog(s, 4, false);
    c.entries.truncate(40);
    c
}

fn image(s: &mut Src) -> Vec<u8> {
    let c = small_mo(s);
    let plan = mo::Plan::any(s);
    let meta = s.bool();
    let mut b = mo::build(s, &pairs_of(if meta { Some(&c.metadata) } else { None }, &c.entries), plan).bytes;
    match s.weighted(&[4, 1, 1]) {
        1 => {
            let n = s.below(b.len() + 1);
            b.truncate(n);
        }
        2 if !b.is_empty() => {
            let i = s.below(b.len().min(40));
            b[i] ^= 1 << s.below(8);
        }
        _ => {}
    }
    b
}

fn op(s: &mut Src, before: &[Op]) -> Op {
    if !before.is_empty() && s.one_in(2) {
        // like an earlier one
        let mut o = before[s.below(before.len())].clone();
        match &mut o {
            Op::Text(t, w) => match s.below(4) {
                0 => *w = gen::opt(s, 2, 3, gen::width),
                1 => return Op::Bytes(t.clone().into_bytes(), *w),
                2 => return Op::File(s.below(2), t.clone().into_bytes(), *w),
                _ => *t = altered(s, t),
            },
            Op::Bytes(b, w) => match s.below(3) {
                0 => *w = gen::opt(s, 2, 3, gen::width),
                1 => return Op::Text(String::from_utf8_lossy(b).into(), *w),
                _ => *b = altered(s, &String::from_utf8_lossy(b)).into_bytes(),
            },
            Op::File(k, b, w) => match s.below(5) {
                0 => *w = gen::opt(s, 2, 3, gen::width),
                1 => *k = 1 - *k,
                2 => return Op::Path(*k),
                _ => *b = altered(s, &String::from_utf8_lossy(b)).into_bytes(),
            },
            Op::Path(k) => return Op::File(*k, document(s).into_bytes(), None),
            Op::Mo(b, w) => match s.below(3) {
                0 => *w = gen::opt(s, 2, 3, gen::width),
                1 => return Op::MoFile(s.below(2), b.clone()),
                _ => {
                    if !b.is_empty() {
                        let i = s.below(b.len());
                        b[i] = b[i].wrapping_add(1);
                    }
                }
            },
            Op::MoFile(k, b) => {
                if b.is_empty() || s.one_in(3) {
                    *k = 1 - *k
                } else {
                    let i = s.below(b.len());
                    b[i] = b[i].wrapping_add(1);
                }
            }
            Op::Write(c, w) => match s.below(4) {
                0 => *w = gen::width(s),
                1 => return Op::Save(s.below(2), c.clone(), *w),
                2 => return Op::Line(c.clone(), *w),
                _ => edited(s, c),
            },
            Op::Save(k, c, w) => match s.below(3) {
                0 => *w = gen::width(s),
                1 => *k = 1 - *k,
                _ => edited(s, c),
            },
            Op::WriteMo(c, w) => match s.below(2) {
                0 => *w = gen::width(s),
                _ => return Op::SaveMo(s.below(2), c.clone()),
            },
            Op::SaveMo(k, _) => *k = 1 - *k,
            Op::Line(c, w) => match s.below(2) {
                0 => *w = gen::width(s),
                _ => edited(s, c),
            },
            Op::Escape(t) => match s.below(2) {
                0 => return Op::Unescape(escape(t)),
                _ => *t = altered(s, t),
            },
            Op::Unescape(t) => match s.below(2) {
                0 => return Op::Escape(t.clone()),
                _ => *t = altered(s, t),
            },
            Op::Compare(c) => edited(s, c),
            Op::Merge(a, b) => std::mem::swap(a, b),
        }
        return o;
    }
    match s.weighted(&[5, 2, 3, 1, 3, 2, 3, 2, 1, 1, 2, 2, 2, 1, 2]) {
        0 => Op::Text(if s.one_in(4) { soup(s, 14) } else { document(s) }, gen::opt(s, 1, 2, gen::width)),
        1 => Op::Bytes(document(s).into_bytes(), gen::opt(s, 1, 2, gen::width)),
        2 => {
            let mut b = document(s).into_bytes();
            if s.one_in(6) {
                let i = s.below(b.len() + 1);
                b.insert(i, 0xff);
            }
            Op::File(s.below(2), b, gen::opt(s, 1, 2, gen::width))
        }
        3 => Op::Path(s.below(2)),
        4 => Op::Mo(image(s), gen::opt(s, 1, 2, gen::width)),
        5 => Op::MoFile(s.below(2), image(s)),
        6 => Op::Write(small_cat(s), gen::width(s)),
        7 => Op::WriteMo(small_mo(s), gen::width(s)),
        8 => Op::Save(s.below(2), small_cat(s), gen::width(s)),
        9 => Op::SaveMo(s.below(2), small_mo(s)),
        10 => Op::Line(small_cat(s), gen::width(s)),
        11 => Op::Escape(gen::anytext(s)),
        12 => Op::Unescape(slashy(s)),
        13 => Op::Compare(tiny_cat(s)),
        _ => Op::Merge(tiny_cat(s), tiny_cat(s)),
    }
}

fn edited(s: &mut Src, c: &mut Cat) {
    if c.entries.is_empty() {
        c.fuzzy = !c.fuzzy;
        return;
    }
    let i = s.below(c.entries.len());
    let m = &mut c.entries[i];
    match s.below(4) {
        0 => m.msgid = altered(s, &m.msgid.clone()),
        1 => m.msgstr = m.msgstr.clone().map(|t| altered(s, &t)),
        2 => m.flags.push("fuzzy".into()),
        _ => m.obsolete = !m.obsolete,
    }
}

/// Calls made before any other in the process, and what they gave.
fn first(dir: &Path) -> &'static Vec<(Op, String)> {
    static FIRST: OnceLock<Vec<(Op, String)>> = OnceLock::new();
    FIRST.get_or_init(|| {
        let mut ops: Vec<Op> = vec![];
        let mut s = Src::random(0, "C37 first calls", 0);
        for _ in 0..40 {
            let o = op(&mut s, &ops);
            ops.push(o);
        }
        ops.into_iter().map(|o| (o.clone(), made(&o, dir))).collect()
    })
}

fn c37(s: &mut Src, c: &mut Ctx) -> Res {
    let dir = c.scratch.clone();
    let first = first(&dir);
    let n = s.range(2, 9);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let o = op(s, &ops);
        ops.push(o);
    }
    c.key(&ops);
    c.note(|| ops.iter().enumerate().map(|(i, o)| format!("{i}: {o:?}\n")).collect());
    let want: Vec<String> = ops.iter().map(|o| made(o, &dir)).collect();
    let kinds: std::collections::HashSet<&String> = want.iter().collect();
    c.nontrivial(n >= 4 && kinds.len() >= 3);
    let differs = |i: usize, got: &str, how: &str| format!("call {i} gives another result {how}: {:?}\nfirst:\n{}\nnow:\n{got}", ops[i], want[i]);
    // in another order, with repetitions
    let k = s.range(1, 8);
    for _ in 0..k {
        let i = s.below(n);
        let got = made(&ops[i], &dir);
        ensure!(got == want[i], "{}", differs(i, &got, "after other calls"));
    }
    let i = s.below(first.len());
    let got = made(&first[i].0, &dir);
    ensure!(got == first[i].1, "a call gives another result than at the beginning: {:?}\nfirst:\n{}\nnow:\n{got}", first[i].0, first[i].1);
    if s.one_in(6) {
        c.label("threads");
        let t = s.range(2, 4);
        let orders: Vec<Vec<usize>> = (0..t).map(|_| (0..s.range(1, 6)).map(|_| s.below(n)).collect()).collect();
        let found: Vec<Result<Option<String>, ()>> = std::thread::scope(|sc| {
            let hs: Vec<_> = orders
                .iter()
                .enumerate()
                .map(|(j, order)| {
                    let (ops, want, differs) = (&ops, &want, &differs);
                    let own = dir.join(format!("thread{j}"));
                    sc.spawn(move || {
                        fs::create_dir_all(&own).expect("scratch");
                        for i in order {
                            let got = made(&ops[*i], &own);
                            if got != want[*i] {
                                return Some(differs(*i, &got, "among calls in other threads"));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map_err(|_| ())).collect()
        });
        for f in found {
            match f {
                Ok(None) => {}
                Ok(Some(m)) => fail!("{m}"),
                Err(()) => fail!("a call in a thread does not return"),
            }
        }
    }
    Ok(())
}
