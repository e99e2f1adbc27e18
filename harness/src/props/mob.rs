//! MO files: C10-C15.
use crate::alloc::peak_of;
use crate::engine::*;
use crate::gen;
use crate::mo;
use crate::model::*;
use rspolib::errors::IOError;
use rspolib::prelude::*;
use rspolib::{mofile, pofile, FileOptions, MOFile, POFile, MAGIC, MAGIC_SWAPPED};
use std::fs;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            quick: 750_000,
            thorough: 6_000_000,
            rule: "A case is an MO catalog with distinct keys, a byte order and a revision; non-trivial if it has a message with a context, a plural or a non-ASCII character.",
            assumptions: &["no NUL but in singular translations, no EOT in contexts or in ids without one; a message is plural exactly if it has plural translations"],
            case: c10,
        },
        Prop {
            id: "C11",
            quick: 1_500_000,
            thorough: 12_000_000,
            rule: "A case is an MO catalog, or a PO catalog to compile, a byte order and a revision; non-trivial if it has at least two messages.",
            assumptions: &["no NUL in strings, no EOT in contexts or in ids without one, distinct keys"],
            case: c11,
        },
        Prop {
            id: "C12",
            quick: 300_000,
            thorough: 4_000_000,
            rule: "A case is a set of messages and a physical layout (byte order, revision, table and string placement, gaps, alignment, sharing, hash table, trailing bytes); non-trivial if there is a message.",
            assumptions: &["strings are UTF-8; messages are sorted by key, the metadata being first"],
            case: c12,
        },
        Prop {
            id: "C13",
            quick: 300_000,
            thorough: 4_000_000,
            rule: "A case is a byte string: random, or a valid file with fields overwritten, cut off, or bytes changed; non-trivial if its magic number is right.",
            assumptions: &[
                "memory bound: 64 KiB + 64 times the input length + 8 times the length of the strings its tables name within the file",
                "not judged: offsets of empty strings, missing terminators, headers without messages",
            ],
            case: c13,
        },
        Prop {
            id: "C14",
            quick: 150_000,
            thorough: 1_200_000,
            rule: "A case is a PO catalog with distinct keys; non-trivial if it has both messages that are to be compiled and messages that are not.",
            assumptions: &["a message is plural exactly if it has plural translations; no NUL in strings, no EOT in ids and contexts"],
            case: c14,
        },
        Prop {
            id: "C15",
            quick: 375_000,
            thorough: 3_000_000,
            rule: "A case is an MO catalog in which every message is translated and a wrap width; non-trivial if it has a message with a context, a plural or a non-ASCII character.",
            assumptions: &["as C10, all translations non-empty"],
            case: c15,
        },
    ]
}

fn rich(m: &Mo) -> bool {
    m.msgctxt.is_some() || m.msgid_plural.is_some() || !m.msgid.is_ascii()
}

fn label_mo(c: &mut Ctx, es: &[Mo]) {
    for e in es {
        if e.msgctxt.is_some() {
            c.label("context");
        }
        if e.msgid_plural.is_some() {
            c.label("plural");
        }
        if e.msgid.is_empty() {
            c.label("empty id with context");
        }
    }
}

fn magic(s: &mut Src) -> (u32, u32) {
    (if s.bool() { MAGIC_SWAPPED } else { MAGIC }, s.upto(1) as u32)
}

fn c10(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cat = gen::mo_catalog(s, 10, false);
    for m in &mut cat.entries {
        if let Some(t) = &mut m.msgstr {
            if s.one_in(30) {
                // not a separator, as there is no plural id
                t.insert(if s.bool() { 0 } else { t.len() }, '\0');
            }
        }
    }
    let (mg, rev) = magic(s);
    c.key(&(&cat, mg, rev));
    c.note(|| format!("magic {mg:x} revision {rev} {}", show_mo(&cat)));
    c.nontrivial(cat.entries.iter().any(rich));
    label_mo(c, &cat.entries);
    let f = cat.mo(78);
    let b = f.as_bytes_with(mg, rev).to_vec();
    let want = cat.sorted();
    let judge = |g: &MOFile, how: &str, mg: u32, rev: u32| -> Res {
        if let Some(d) = diff_mo(&MoCat::of(g).canon(), &want) {
            fail!("{how}: {d}");
        }
        ensure!(g.magic_number == Some(mg), "{how}: magic number {:x?}, written {mg:x}", g.magic_number);
        ensure!(g.version == Some(rev), "{how}: revision {:?}, written {rev}", g.version);
        Ok(())
    };
    let g = mofile(b).map_err(|e| format!("the written bytes are rejected: {e}"))?;
    judge(&g, "as_bytes_with", mg, rev)?;
    // the shorthands
    for (b, mg, how) in [(f.as_bytes(), MAGIC, "as_bytes"), (f.as_bytes_le(), MAGIC, "as_bytes_le"), (f.as_bytes_be(), MAGIC_SWAPPED, "as_bytes_be")] {
        let g = mofile(b.to_vec()).map_err(|e| format!("{how}: rejected: {e}"))?;
        judge(&g, how, mg, 0)?;
    }
    // writing what was read gives the same bytes
    let again = g.as_bytes_with(mg, rev).to_vec();
    ensure!(again == f.as_bytes_with(mg, rev).to_vec(), "writing what was read gives other bytes");
    Ok(())
}

fn c11(s: &mut Src, c: &mut Ctx) -> Res {
    let cat = gen::mo_catalog(s, 12, true);
    let (mg, rev) = magic(s);
    let from_po = s.one_in(3);
    c.key(&(&cat, mg, rev, from_po));
    c.note(|| format!("magic {mg:x} revision {rev} from PO {from_po} {}", show_mo(&cat)));
    c.nontrivial(cat.entries.len() >= 2);
    label_mo(c, &cat.entries);
    let (b, rev) = if from_po {
        let mut p = POFile::new("".into());
        p.metadata = cat.metadata.clone().into_iter().collect();
        for e in &cat.entries {
            p.entries.push(rspolib::POEntry::from(&e.mo()));
        }
        if mg == MAGIC {
            (p.as_bytes().to_vec(), 0)
        } else {
            (p.as_bytes_be().to_vec(), 0)
        }
    } else {
        (cat.mo(78).as_bytes_with(mg, rev).to_vec(), rev)
    };
    let raw = mo::read_strict(&b)?;
    ensure!(raw.be == (mg == MAGIC_SWAPPED), "byte order differs from the chosen one");
    ensure!(raw.revision == rev, "revision {} differs from the chosen {rev}", raw.revision);
    ensure!(raw.n == cat.entries.len() + 1, "{} strings for {} messages and the metadata", raw.n, cat.entries.len());
    ensure!(raw.hash_size == 0 || raw.hash_off + 4 * raw.hash_size <= b.len(), "hash table past the end");
    for i in 1..raw.n {
        ensure!(mo::key_of(raw.original(&b, i - 1)) < mo::key_of(raw.original(&b, i)), "keys {} and {i} are not in order", i - 1);
    }
    for m in &cat.entries {
        match raw.lookup(&b, m.key().as_bytes()) {
            None => fail!("{:?} is not found by binary search", m.key()),
            Some(t) => ensure!(
                t == mo::translation_bytes(m),
                "{:?} is translated as {:?}, expected {:?}",
                m.key(),
                String::from_utf8_lossy(t),
                String::from_utf8_lossy(&mo::translation_bytes(m))
            ),
        }
        let o = mo::original_bytes(m);
        ensure!((0..raw.n).any(|i| raw.original(&b, i) == o), "there is no original {:?}", String::from_utf8_lossy(&o));
    }
    let meta = match raw.lookup(&b, b"") {
        None => fail!("no metadata entry"),
        Some(t) => String::from_utf8_lossy(t).to_string(),
    };
    let mut got = Meta::new();
    for l in meta.split('\n').filter(|l| !l.is_empty()) {
        match l.split_once(": ") {
            Some((k, v)) => ensure!(got.insert(k.into(), v.into()).is_none(), "metadata key {k:?} twice"),
            None => match l.strip_suffix(':') {
                Some(k) => ensure!(got.insert(k.into(), String::new()).is_none(), "metadata key {k:?} twice"),
                None => fail!("metadata line {l:?} is not 'Key: value'"),
            },
        }
    }
    // a key can itself contain nothing that matters here (no colon)
    ensure!(got == cat.metadata, "metadata is {got:?}, expected {:?}", cat.metadata);
    Ok(())
}

pub fn pairs_of(metadata: Option<&Meta>, es: &[Mo]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = es.iter().map(|m| (mo::original_bytes(m), mo::translation_bytes(m))).collect();
    v.sort();
    if let Some(m) = metadata {
        v.insert(0, (vec![], mo::metadata_text(m).into_bytes()));
    }
    v
}

fn c12(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cat = gen::mo_catalog(s, 10, false).sorted();
    let meta = s.upto(3) > 0;
    if !meta {
        cat.metadata.clear();
    }
    let plan = mo::Plan::any(s);
    c.key(&(&cat, format!("{plan:?}")));
    let mut pairs = pairs_of(if meta { Some(&cat.metadata) } else { None }, &cat.entries);
    if meta && s.one_in(3) {
        // metadata as other tools may write it
        c.label("metadata spaced freely");
        let mut t: String = cat
            .metadata
            .iter()
            .map(|(k, v)| format!("{k}:{}{v}{}\n{}", s.pick(&["", " ", "  ", "\t", " \t "]), s.pick(&["", "", " ", "\t"]), s.pick(&["", "", "", "\n"])))
            .collect();
        if s.bool() {
            t.truncate(t.trim_end_matches('\n').len());
        }
        pairs[0].1 = t.into_bytes();
    }
    let built = mo::build(s, &pairs, plan);
    c.note(|| format!("{plan:?}\n{}\nbytes {:02x?}", show_mo(&cat), built.bytes));
    c.nontrivial(!cat.entries.is_empty());
    label_mo(c, &cat.entries);
    if !meta {
        c.label("no metadata");
    }
    if plan.hash > 0 {
        c.label("hash table");
    }
    let path = c.scratch.join("layout.mo");
    fs::write(&path, &built.bytes).expect("scratch");
    for (how, r) in [("bytes", mofile(built.bytes.clone())), ("file", mofile(path.to_str().unwrap()))] {
        let g = r.map_err(|e| format!("a valid file is rejected ({how}): {e}"))?;
        if let Some(d) = diff_mo(&MoCat::of(&g).canon(), &cat) {
            fail!("read from {how}: {d}");
        }
        ensure!(g.version == Some(plan.revision), "revision {:?}, expected {}", g.version, plan.revision);
        let want = if plan.be { MAGIC_SWAPPED } else { MAGIC };
        ensure!(g.magic_number == Some(want), "magic number {:x?}, expected {want:x}", g.magic_number);
    }
    Ok(())
}

#[derive(Debug, PartialEq)]
enum Want {
    NoMagic,
    BadMagic,
    Revision(u32),
    Corrupt,
    /// The strings of a file that is complete.
    Strings(Vec<(Vec<u8>, Vec<u8>)>),
    Either,
}

/// What the format says about a byte string.
fn judge(b: &[u8]) -> Want {
    let be = match mo::u32_at(b, 0, false) {
        None => return Want::NoMagic,
        Some(MAGIC) => false,
        Some(MAGIC_SWAPPED) => true,
        _ => return Want::BadMagic,
    };
    let at = |i: usize| mo::u32_at(b, i, be);
    match at(4) {
        None => return Want::Corrupt,
        Some(0) | Some(1) => {}
        Some(v) => return Want::Revision(v),
    }
    let (n, o, t) = match (at(8), at(12), at(16)) {
        (Some(n), Some(o), Some(t)) => (n as usize, o as usize, t as usize),
        _ => return Want::Corrupt,
    };
    if n == 0 {
        return Want::Either;
    }
    if o + 8 * n > b.len() || t + 8 * n > b.len() {
        return Want::Corrupt;
    }
    let mut either = false;
    let mut out = vec![];
    for i in 0..n {
        let mut get = |table: usize| -> Option<Vec<u8>> {
            let len = at(table + 8 * i).unwrap() as usize;
            let off = at(table + 8 * i + 4).unwrap() as usize;
            if len == 0 {
                either |= off > b.len();
                return Some(vec![]);
            }
            b.get(off..off + len).map(|x| x.to_vec())
        };
        match (get(o), get(t)) {
            (Some(x), Some(y)) => out.push((x, y)),
            _ => return Want::Corrupt,
        }
    }
    if either {
        Want::Either
    } else {
        Want::Strings(out)
    }
}

/// Total length of the strings the tables name, as far as they are in the file.
fn named(b: &[u8]) -> usize {
    match judge(b) {
        Want::Strings(v) => v.iter().map(|(x, y)| x.len() + y.len()).sum(),
        // some string may have been read before the damaged one
        _ => {
            let be = mo::u32_at(b, 0, false) == Some(MAGIC_SWAPPED);
            let at = |i: usize| mo::u32_at(b, i, be);
            let mut sum = 0;
            if let (Some(n), Some(o), Some(t)) = (at(8), at(12), at(16)) {
                for table in [o as usize, t as usize] {
                    for i in 0..n as usize {
                        match (at(table + 8 * i), at(table + 8 * i + 4)) {
                            (Some(len), Some(off)) => {
                                sum += (len as usize).min(b.len().saturating_sub(off as usize));
                            }
                            _ => break,
                        }
                    }
                }
            }
            sum
        }
    }
}

fn c13(s: &mut Src, c: &mut Ctx) -> Res {
    let mut cut = false;
    let b: Vec<u8> = match s.weighted(&[1, 5, 3, 3, 2, 2]) {
        0 => {
            c.label("random bytes");
            let n = s.size(80);
            let mut b: Vec<u8> = (0..n).map(|_| s.upto(255) as u8).collect();
            if s.bool() && b.len() >= 8 {
                mo::put(&mut b, 0, MAGIC, s.bool());
                if s.bool() {
                    mo::put(&mut b, 4, 0, false);
                }
            }
            b
        }
        kind => {
            let cat = gen::mo_catalog(s, 5, false);
            let meta = s.upto(3) > 0;
            let plan = mo::Plan::any(s);
            let built = mo::build(s, &pairs_of(if meta { Some(&cat.metadata) } else { None }, &cat.entries), plan);
            let mut b = built.bytes;
            let be = built.be;
            match kind {
                1 => {
                    // overwrite fields with interesting numbers
                    c.label("fields overwritten");
                    let k = s.range(1, 2);
                    for _ in 0..k {
                        let at = match s.weighted(&[4, 5]) {
                            0 => 4 * s.below(7),
                            _ if built.n > 0 => {
                                let table = if s.bool() { built.o } else { built.t };
                                table + 4 * s.below(2 * built.n)
                            }
                            _ => 8,
                        };
                        let len = b.len() as u32;
                        let old = mo::u32_at(&b, at, be).unwrap_or(0);
                        let v = match s.below(11) {
                            9 => old ^ (1 << s.below(32)),
                            10 => old | *s.pick(&[0x80000000, 0x40000000, 0xff000000, 0xffff0000, 0x10000, 0x1000000]),
                            0 => 0,
                            1 => 1,
                            2 => old.wrapping_add(1),
                            3 => old.wrapping_sub(1),
                            4 => len,
                            5 => len.wrapping_sub(s.upto(9) as u32),
                            6 => len + s.range(1, 9) as u32,
                            7 => *s.pick(&[u32::MAX, 0x7fffffff, 0x80000000, 0x10000000, 0x1fffffff, 0x20000000, u32::MAX - 3, u32::MAX - 7]),
                            _ => s.upto(u32::MAX as u64) as u32,
                        };
                        mo::put(&mut b, at, v, be);
                    }
                    b
                }
                2 => {
                    c.label("cut off");
                    let k = s.below(b.len() + 1);
                    cut = k < built.last_data;
                    b.truncate(k);
                    b
                }
                3 => {
                    c.label("bytes changed");
                    let k = s.range(1, 4);
                    for _ in 0..k {
                        let at = s.below(b.len());
                        b[at] = match s.below(3) {
                            0 => s.upto(255) as u8,
                            1 => b[at] ^ (1 << s.below(8)),
                            _ => *s.pick(&[0u8, 4, 0xff, 0x80, b'\n', b':']),
                        };
                    }
                    b
                }
                4 => {
                    c.label("other magic number or revision");
                    if s.bool() {
                        let v = *s.pick(&[0x950412df, 0x50412de, 0, u32::MAX, 0xde120496, 0x950412de ^ 0x80, 0x12de9504]);
                        mo::put(&mut b, 0, v, be);
                    } else {
                        let v = match s.below(3) {
                            0 => s.range(2, 20) as u32,
                            1 => 1 << s.range(1, 31),
                            _ => *s.pick(&[0x10000, 0x10001, 0x01000000, u32::MAX, 256, 257]),
                        };
                        mo::put(&mut b, 4, v, be);
                    }
                    b
                }
                _ => {
                    c.label("intact");
                    b
                }
            }
        }
    };
    c.key(&b);
    let want = judge(&b);
    c.note(|| format!("{} bytes {b:02x?}, expected {want:?}", b.len()));
    c.nontrivial(!matches!(want, Want::NoMagic | Want::BadMagic));
    let input = FileOptions::from(b.clone());
    let (r, peak) = peak_of(|| mofile(input));
    let budget = (64 << 10) + 64 * b.len() + 8 * named(&b);
    ensure!(peak <= budget, "reading {} bytes takes {peak} bytes of memory", b.len());
    let path = c.scratch.join("damaged.mo");
    fs::write(&path, &b).expect("scratch");
    let from_file = mofile(path.to_str().unwrap());
    match (&r, &from_file) {
        (Ok(x), Ok(y)) => ensure!(MoCat::of(x) == MoCat::of(y), "a file and its bytes are read differently"),
        (Err(x), Err(y)) => ensure!(x == y, "a file and its bytes give different errors: {x} / {y}"),
        (x, y) => fail!("a file and its bytes are read differently: {} / {}", x.is_ok(), y.is_ok()),
    }
    if cut {
        ensure!(r.is_err(), "a file cut off inside of its data is accepted");
    }
    match (&want, &r) {
        (Want::NoMagic, Err(IOError::ErrorReadingMagicNumber {})) => {}
        (Want::BadMagic, Err(IOError::IncorrectMagicNumber { magic_number_le, magic_number_be })) => {
            let le = mo::u32_at(&b, 0, false).unwrap();
            ensure!(*magic_number_le == le && *magic_number_be == le.swap_bytes(), "wrong magic number {le:x} reported as {magic_number_le:x} {magic_number_be:x}");
        }
        (Want::Revision(v), Err(IOError::UnsupportedMORevisionNumber { version })) => ensure!(v == version, "revision {v} reported as {version}"),
        (Want::Corrupt, Err(IOError::CorruptedMOData { .. })) => c.label("rejected as corrupted"),
        (Want::Either, _) => {}
        (Want::Strings(pairs), Ok(g)) => {
            c.label("accepted");
            return same_strings(pairs, g);
        }
        // a complete file can still be damaged in ways the format does not tell
        (w, Ok(g)) => fail!("expected {w:?}, but it is accepted with {} messages", g.entries.len()),
        (w, Err(e)) => fail!("expected {w:?}, but the error is: {e}"),
    }
    Ok(())
}

/// An accepted file has exactly the messages its tables name.
fn same_strings(pairs: &[(Vec<u8>, Vec<u8>)], g: &MOFile) -> Res {
    let has_meta = pairs.first().map_or(false, |p| p.0.is_empty());
    let rest = &pairs[has_meta as usize..];
    ensure!(g.entries.len() == rest.len(), "{} messages read, the file has {}", g.entries.len(), rest.len());
    for ((o, t), e) in rest.iter().zip(&g.entries) {
        let (o, t) = match (String::from_utf8(o.clone()), String::from_utf8(t.clone())) {
            (Ok(o), Ok(t)) => (o, t),
            _ => continue,
        };
        let m = Mo::of(e);
        let parts: Vec<&str> = o.split('\0').collect();
        if parts.len() > 2 {
            continue;
        }
        let (ctx, id) = match parts[0].split_once('\u{4}') {
            Some((c, i)) => (Some(c.to_string()), i),
            None => (None, parts[0]),
        };
        let want = Mo {
            msgid: id.to_string(),
            msgctxt: ctx,
            msgid_plural: parts.get(1).map(|x| x.to_string()),
            msgstr: if parts.len() == 2 { None } else { Some(t.clone()) },
            msgstr_plural: if parts.len() == 2 { t.split('\0').map(|x| x.to_string()).collect() } else { vec![] },
        };
        ensure!(m.canon() == want, "message read as {:?}, the file says {want:?}", m.canon());
    }
    Ok(())
}

/// Messages for compiling: every reason not to be compiled, distinct keys.
pub fn to_compile(s: &mut Src, max: usize) -> Vec<M> {
    let base = gen::mo_messages(s, max, true);
    let mut v = vec![];
    for b in base {
        let mut m = gen::message(s);
        m.msgid = b.msgid;
        m.msgctxt = b.msgctxt;
        m.msgid_plural = b.msgid_plural;
        m.msgstr = b.msgstr;
        m.msgstr_plural = b.msgstr_plural;
        m.obsolete = s.one_in(6);
        m.flags = gen::flags(s);
        match s.weighted(&[6, 2]) {
            0 => {}
            _ => {
                if m.msgstr_plural.is_empty() {
                    m.msgstr = if s.bool() { None } else { Some(String::new()) };
                } else {
                    let i = s.below(m.msgstr_plural.len());
                    m.msgstr_plural[i] = String::new();
                }
            }
        }
        if s.one_in(10) {
            // another one of the same key that is not translated
            let mut d = m.clone();
            match s.below(3) {
                0 => d.obsolete = true,
                1 => d.flags.insert(0, "fuzzy".into()),
                _ => {
                    d.msgstr = None;
                    d.msgstr_plural = vec![];
                    d.msgid_plural = None;
                }
            }
            v.push(d);
        }
        v.push(m);
    }
    v
}

fn compiled(es: &[M]) -> Vec<Mo> {
    es.iter().filter(|m| m.translated()).map(mo_of_m).collect()
}

fn c14(s: &mut Src, c: &mut Ctx) -> Res {
    let cat = Cat { header: None, metadata: gen::metadata(s), fuzzy: s.one_in(4), entries: to_compile(s, 10) };
    c.key(&cat);
    c.note(|| show_cat(&cat));
    let want = MoCat { metadata: cat.metadata.clone(), entries: compiled(&cat.entries) };
    c.nontrivial(!want.entries.is_empty() && want.entries.len() < cat.entries.len());
    label_mo(c, &want.entries);
    let p = cat.po(78);
    let m = MOFile::from(&p);
    if let Some(d) = diff_mo(&MoCat::of(&m), &want) {
        fail!("as an object: {d}");
    }
    let sorted = want.sorted();
    let path = c.scratch.join("compiled.mo");
    let path = path.to_str().unwrap();
    p.save_as_mofile(path);
    let saved = fs::read(path).map_err(|e| format!("save_as_mofile wrote nothing: {e}"))?;
    ensure!(saved == p.as_bytes().to_vec(), "the saved file differs from the bytes");
    ensure!(m.as_bytes() == p.as_bytes(), "the bytes of the object differ from the bytes of the catalog");
    m.save(path);
    ensure!(fs::read(path).ok() == Some(saved.clone()), "the saved object differs from the saved catalog");
    m.save_as_mofile(path);
    ensure!(fs::read(path).ok() == Some(saved.clone()), "the object saved as MO file differs from the saved catalog");
    for (how, b) in [("as_bytes", p.as_bytes()), ("as_bytes_le", p.as_bytes_le()), ("as_bytes_be", p.as_bytes_be())] {
        // read by the strict reader, not the library
        let raw = mo::read_strict(&b).map_err(|e| format!("{how}: {e}"))?;
        ensure!(raw.be == (how == "as_bytes_be"), "{how}: byte order");
        let got: Vec<(Vec<u8>, Vec<u8>)> = (0..raw.n).map(|i| (raw.original(&b, i).to_vec(), raw.translation(&b, i).to_vec())).filter(|x| !x.0.is_empty()).collect();
        let exp: Vec<(Vec<u8>, Vec<u8>)> = sorted.entries.iter().map(|m| (mo::original_bytes(m), mo::translation_bytes(m))).collect();
        ensure!(got.len() == exp.len(), "{how}: {} messages compiled, expected {}", got.len(), exp.len());
        for (g, w) in got.iter().zip(&exp) {
            ensure!(g == w, "{how}: compiled {:?}, expected {:?}", lossy(g), lossy(w));
        }
        let g = mofile(b.to_vec()).map_err(|e| format!("{how}: rejected: {e}"))?;
        if let Some(d) = diff_mo(&MoCat::of(&g).canon(), &sorted) {
            fail!("{how}: {d}");
        }
    }
    // the same when the catalog was read from text
    let text = cat.po(usize::MAX / 2).to_string();
    let r = pofile(text.as_str()).map_err(|e| format!("rejected: {e}\n{text}"))?;
    ensure!(r.as_bytes() == p.as_bytes(), "the catalog read from its text compiles to other bytes\n{text}");
    Ok(())
}

fn lossy(x: &(Vec<u8>, Vec<u8>)) -> (String, String) {
    (String::from_utf8_lossy(&x.0).into(), String::from_utf8_lossy(&x.1).into())
}

fn c15(s: &mut Src, c: &mut Ctx) -> Res {
    let cat = gen::mo_catalog(s, 10, true);
    let ww = gen::width(s);
    let via = s.below(3);
    c.key(&(&cat, ww, via));
    c.note(|| format!("wrap width {ww}, via {via}, {}", show_mo(&cat)));
    c.nontrivial(cat.entries.iter().any(rich));
    label_mo(c, &cat.entries);
    let mut f = cat.mo(ww);
    let mut want = cat.canon();
    if via == 2 {
        // an MO file that was read
        f = mofile((f.as_bytes().to_vec(), ww)).map_err(|e| format!("rejected: {e}"))?;
        want = cat.sorted();
    }
    let text = if via == 1 {
        let p = c.scratch.join("from-mo.po");
        f.save_as_pofile(p.to_str().unwrap());
        let t = fs::read_to_string(&p).map_err(|e| format!("save_as_pofile wrote nothing: {e}"))?;
        ensure!(t == f.to_string(), "save_as_pofile writes another text");
        t
    } else {
        f.to_string()
    };
    let p = pofile(text.as_str()).map_err(|e| format!("the text is rejected: {e}\n{text}"))?;
    let got = MoCat { metadata: p.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), entries: p.entries.iter().map(|e| mo_of_m(&M::of(e))).collect() };
    if let Some(d) = diff_mo(&got, &want) {
        fail!("read back: {d}\n{text}");
    }
    ensure!(!p.metadata_is_fuzzy, "the metadata became fuzzy\n{text}");
    for e in &p.entries {
        let mut m = M::of(e);
        m.msgid.clear();
        m.msgstr = None;
        m.msgid_plural = None;
        m.msgstr_plural.clear();
        m.msgctxt = None;
        ensure!(m == M::default(), "fields out of nothing: {}\n{text}", short(&m));
    }
    ensure!(p.as_bytes().to_vec() == f.as_bytes().to_vec(), "compiled again, the bytes differ\n{text}");
    Ok(())
}
