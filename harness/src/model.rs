//! Plain models of messages and catalogs, independent of the library.
use rspolib::{MOEntry, MOFile, POEntry, POFile};
use std::collections::BTreeMap;

pub type Meta = BTreeMap<String, String>;

/// A PO message (everything but the line number).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct M {
    pub msgid: String,
    pub msgstr: Option<String>,
    pub msgid_plural: Option<String>,
    pub msgstr_plural: Vec<String>,
    pub msgctxt: Option<String>,
    pub obsolete: bool,
    pub comment: Option<String>,
    pub tcomment: Option<String>,
    pub occurrences: Vec<(String, String)>,
    pub flags: Vec<String>,
    pub previous_msgid: Option<String>,
    pub previous_msgid_plural: Option<String>,
    pub previous_msgctxt: Option<String>,
}

impl M {
    pub fn of(e: &POEntry) -> M {
        M {
            msgid: e.msgid.clone(),
            msgstr: e.msgstr.clone(),
            msgid_plural: e.msgid_plural.clone(),
            msgstr_plural: e.msgstr_plural.clone(),
            msgctxt: e.msgctxt.clone(),
            obsolete: e.obsolete,
            comment: e.comment.clone(),
            tcomment: e.tcomment.clone(),
            occurrences: e.occurrences.clone(),
            flags: e.flags.clone(),
            previous_msgid: e.previous_msgid.clone(),
            previous_msgid_plural: e.previous_msgid_plural.clone(),
            previous_msgctxt: e.previous_msgctxt.clone(),
        }
    }
    pub fn po(&self) -> POEntry {
        let mut e = POEntry::new(0);
        e.msgid = self.msgid.clone();
        e.msgstr = self.msgstr.clone();
        e.msgid_plural = self.msgid_plural.clone();
        e.msgstr_plural = self.msgstr_plural.clone();
        e.msgctxt = self.msgctxt.clone();
        e.obsolete = self.obsolete;
        e.comment = self.comment.clone();
        e.tcomment = self.tcomment.clone();
        e.occurrences = self.occurrences.clone();
        e.flags = self.flags.clone();
        e.previous_msgid = self.previous_msgid.clone();
        e.previous_msgid_plural = self.previous_msgid_plural.clone();
        e.previous_msgctxt = self.previous_msgctxt.clone();
        e
    }
    pub fn fuzzy(&self) -> bool {
        self.flags.iter().any(|f| f == "fuzzy")
    }
    /// Not fuzzy, not obsolete, and a non-empty translation or all plural
    /// forms non-empty.
    pub fn translated(&self) -> bool {
        !self.obsolete
            && !self.fuzzy()
            && match &self.msgstr {
                Some(s) => !s.is_empty(),
                None => !self.msgstr_plural.is_empty() && self.msgstr_plural.iter().all(|s| !s.is_empty()),
            }
    }
    /// What PO text can express of this message.
    pub fn as_written(&self) -> M {
        let mut m = self.clone();
        if m.msgstr_plural.is_empty() {
            m.msgstr = Some(m.msgstr.unwrap_or_default());
        } else {
            m.msgstr = None;
        }
        // a blank extracted comment line carries nothing
        if let Some(c) = &m.comment {
            let ls: Vec<&str> = c.split('\n').filter(|l| !l.trim().is_empty()).collect();
            m.comment = if ls.is_empty() { None } else { Some(ls.join("\n")) };
        }
        if m.obsolete {
            m.occurrences.clear();
            m.previous_msgid = None;
            m.previous_msgid_plural = None;
            m.previous_msgctxt = None;
        }
        m
    }
}

/// A PO catalog.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Cat {
    pub header: Option<String>,
    pub metadata: Meta,
    pub fuzzy: bool,
    pub entries: Vec<M>,
}

impl Cat {
    pub fn of(f: &POFile) -> Cat {
        Cat {
            header: f.header.clone(),
            metadata: f.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            fuzzy: f.metadata_is_fuzzy,
            entries: f.entries.iter().map(M::of).collect(),
        }
    }
    pub fn po(&self, wrapwidth: usize) -> POFile {
        let mut f = POFile::new(("", wrapwidth).into());
        f.header = self.header.clone();
        f.metadata = self.metadata.clone().into_iter().collect();
        f.metadata_is_fuzzy = self.fuzzy;
        f.entries = self.entries.iter().map(M::po).collect();
        f
    }
    /// What the text of this catalog says: non-obsolete messages first, the
    /// header without blank lines at its end.
    pub fn as_written(&self) -> Cat {
        let mut entries: Vec<M> = self.entries.iter().filter(|e| !e.obsolete).map(M::as_written).collect();
        entries.extend(self.entries.iter().filter(|e| e.obsolete).map(M::as_written));
        Cat {
            header: Some(self.header.clone().unwrap_or_default().trim_end_matches('\n').to_string()),
            metadata: self.metadata.clone(),
            fuzzy: self.fuzzy,
            entries,
        }
    }
}

/// First difference between two catalogs, for messages.
pub fn diff(got: &Cat, want: &Cat) -> Option<String> {
    if got.header != want.header {
        return Some(format!("header is {:?}, expected {:?}", got.header, want.header));
    }
    if got.metadata != want.metadata {
        return Some(format!("metadata is {:?}, expected {:?}", got.metadata, want.metadata));
    }
    if got.fuzzy != want.fuzzy {
        return Some(format!("metadata fuzzy mark is {}, expected {}", got.fuzzy, want.fuzzy));
    }
    diff_entries(&got.entries, &want.entries)
}

pub fn diff_entries(got: &[M], want: &[M]) -> Option<String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Some(format!("message {i} is\n  {}\nexpected\n  {}\ndiffering in {}", short(g), short(w), fields(g, w)));
        }
    }
    if got.len() != want.len() {
        return Some(format!("{} messages, expected {}; first extra or missing: {:?}", got.len(), want.len(), {
            let n = got.len().min(want.len());
            got.get(n).or(want.get(n)).map(short)
        }));
    }
    None
}

fn fields(a: &M, b: &M) -> String {
    let mut o = vec![];
    macro_rules! f { ($($n:ident),*) => { $( if a.$n != b.$n { o.push(format!("{}: {:?} != {:?}", stringify!($n), a.$n, b.$n)); } )* } }
    f!(msgid, msgstr, msgid_plural, msgstr_plural, msgctxt, obsolete, comment, tcomment, occurrences, flags, previous_msgid, previous_msgid_plural, previous_msgctxt);
    o.join("; ")
}

pub fn short(m: &M) -> String {
    let d = M::default();
    let mut o = vec![format!("msgid: {:?}", m.msgid)];
    macro_rules! f { ($($n:ident),*) => { $( if m.$n != d.$n { o.push(format!("{}: {:?}", stringify!($n), m.$n)); } )* } }
    f!(msgstr, msgid_plural, msgstr_plural, msgctxt, obsolete, comment, tcomment, occurrences, flags, previous_msgid, previous_msgid_plural, previous_msgctxt);
    o.join(", ")
}

pub fn show_cat(c: &Cat) -> String {
    let mut o = format!("header {:?}, metadata {:?}{}", c.header, c.metadata, if c.fuzzy { " fuzzy" } else { "" });
    for e in &c.entries {
        o.push_str("\n  ");
        o.push_str(&short(e));
    }
    o
}

/// An MO message.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Mo {
    pub msgid: String,
    pub msgstr: Option<String>,
    pub msgid_plural: Option<String>,
    pub msgstr_plural: Vec<String>,
    pub msgctxt: Option<String>,
}

impl Mo {
    pub fn of(e: &MOEntry) -> Mo {
        Mo {
            msgid: e.msgid.clone(),
            msgstr: e.msgstr.clone(),
            msgid_plural: e.msgid_plural.clone(),
            msgstr_plural: e.msgstr_plural.clone(),
            msgctxt: e.msgctxt.clone(),
        }
    }
    pub fn mo(&self) -> MOEntry {
        MOEntry::new(
            self.msgid.clone(),
            self.msgstr.clone(),
            self.msgid_plural.clone(),
            self.msgstr_plural.clone(),
            self.msgctxt.clone(),
        )
    }
    /// The singular translation of a plural message is not information.
    pub fn canon(&self) -> Mo {
        let mut m = self.clone();
        if m.msgid_plural.is_some() {
            m.msgstr = None;
        }
        m
    }
    pub fn key(&self) -> String {
        match &self.msgctxt {
            Some(c) => format!("{c}\u{4}{}", self.msgid),
            None => self.msgid.clone(),
        }
    }
}

pub fn mo_of_m(m: &M) -> Mo {
    Mo {
        msgid: m.msgid.clone(),
        msgstr: m.msgstr.clone(),
        msgid_plural: m.msgid_plural.clone(),
        msgstr_plural: m.msgstr_plural.clone(),
        msgctxt: m.msgctxt.clone(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MoCat {
    pub metadata: Meta,
    pub entries: Vec<Mo>,
}

impl MoCat {
    pub fn of(f: &MOFile) -> MoCat {
        MoCat {
            metadata: f.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            entries: f.entries.iter().map(Mo::of).collect(),
        }
    }
    pub fn mo(&self, wrapwidth: usize) -> MOFile {
        let mut f = MOFile::new(("", wrapwidth).into());
        f.metadata = self.metadata.clone().into_iter().collect();
        f.entries = self.entries.iter().map(Mo::mo).collect();
        f
    }
    pub fn canon(&self) -> MoCat {
        MoCat {
            metadata: self.metadata.clone(),
            entries: self.entries.iter().map(Mo::canon).collect(),
        }
    }
    pub fn sorted(&self) -> MoCat {
        let mut c = self.canon();
        c.entries.sort_by(|a, b| a.key().as_bytes().cmp(b.key().as_bytes()));
        c
    }
}

pub fn diff_mo(got: &MoCat, want: &MoCat) -> Option<String> {
    if got.metadata != want.metadata {
        return Some(format!("metadata is {:?}, expected {:?}", got.metadata, want.metadata));
    }
    for (i, (g, w)) in got.entries.iter().zip(&want.entries).enumerate() {
        if g != w {
            return Some(format!("message {i} is {g:?}, expected {w:?}"));
        }
    }
    if got.entries.len() != want.entries.len() {
        let n = got.entries.len().min(want.entries.len());
        return Some(format!(
            "{} messages, expected {}; first extra or missing {:?}",
            got.entries.len(),
            want.entries.len(),
            got.entries.get(n).or(want.entries.get(n))
        ));
    }
    None
}

pub fn show_mo(c: &MoCat) -> String {
    let mut o = format!("metadata {:?}", c.metadata);
    for e in &c.entries {
        o.push_str(&format!("\n  {:?}", e));
    }
    o
}

/// The escape table, written independently of the library.
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let e = match c as u32 {
            0x22 => '"',
            0x5c => '\\',
            0x0a => 'n',
            0x0d => 'r',
            0x09 => 't',
            0x08 => 'b',
            0x11 => 'v',
            0x12 => 'f',
            _ => {
                o.push(c);
                continue;
            }
        };
        o.push('\\');
        o.push(e);
    }
    o
}

#[derive(Debug, PartialEq)]
pub enum Unesc {
    Unknown(char),
    AtEnd,
}

pub fn unescape(s: &str) -> Result<String, Unesc> {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] != '\\' {
            o.push(cs[i]);
            i += 1;
            continue;
        }
        match cs.get(i + 1) {
            None => return Err(Unesc::AtEnd),
            Some('"') => o.push('"'),
            Some('\\') => o.push('\\'),
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('b') => o.push('\u{8}'),
            Some('v') => o.push('\u{11}'),
            Some('f') => o.push('\u{12}'),
            Some(c) => return Err(Unesc::Unknown(*c)),
        }
        i += 2;
    }
    Ok(o)
}
