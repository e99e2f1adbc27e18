//! Prints PO documents in freely chosen layouts.  What a document says is
//! known by construction; the library is not involved.
use crate::engine::Src;
use crate::gen;
use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Blank,
    Noise,
    Header,
    Tc,
    Gc,
    Oc,
    Fl,
    /// previous msgctxt, msgid, msgid_plural
    Prev(u8),
    PrevCont,
    Ct,
    Mi,
    Mp,
    Ms,
    Mx,
    Cont,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub text: String,
    pub kind: K,
    /// Item it belongs to; the metadata block is item 0 if there is one.
    pub owner: Option<usize>,
    pub crlf: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub bom: bool,
    pub lines: Vec<Line>,
    pub final_eol: bool,
}

impl Doc {
    pub fn render(&self) -> String {
        let mut o = String::new();
        if self.bom {
            o.push('\u{feff}');
        }
        for (i, l) in self.lines.iter().enumerate() {
            o.push_str(&l.text);
            if i + 1 < self.lines.len() || self.final_eol {
                o.push_str(if l.crlf { "\r\n" } else { "\n" });
            }
        }
        o
    }
    /// Spaces after a line, so that it ends where a buffer may end.
    fn pad(&mut self, s: &mut Src) {
        if self.lines.is_empty() {
            return;
        }
        let i = s.below(self.lines.len());
        let n = match s.weighted(&[3, 3, 1]) {
            0 => *s.pick(&[64usize, 128, 256, 512, 1024]),
            1 => *s.pick(&[2048usize, 4096, 8192]),
            _ => *s.pick(&[16384usize, 32768, 65536]),
        };
        let n = n + 1 - s.below(3);
        // the length of the line, or where it ends in the document
        let have = if s.bool() {
            self.lines[i].text.len()
        } else {
            self.bom as usize * 3 + self.lines[..=i].iter().map(|l| l.text.len() + 1 + l.crlf as usize).sum::<usize>()
        };
        if n > have {
            self.lines[i].text.push_str(&" ".repeat(n - have));
        }
    }
    /// 1-based number of the first line of an item.
    pub fn first_line(&self, item: usize) -> usize {
        1 + self.lines.iter().position(|l| l.owner == Some(item)).unwrap_or(usize::MAX - 1)
    }
}

/// Which liberties to take.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub indent: bool,
    pub blank: bool,
    pub split: bool,
    pub noise: bool,
    pub interleave: bool,
    pub eol: u8,
}

impl Style {
    pub const PLAIN: Style = Style { indent: false, blank: false, split: false, noise: false, interleave: false, eol: 0 };
    pub fn any(s: &mut Src) -> Style {
        Style {
            indent: s.bool(),
            blank: s.bool(),
            split: s.upto(3) > 0,
            noise: s.one_in(3),
            interleave: s.bool(),
            eol: s.weighted(&[4, 2, 1]) as u8,
        }
    }
}

/// A message as a document can spell it out.
pub fn doc_message(s: &mut Src) -> M {
    let mut m = gen::message(s);
    if m.msgstr_plural.is_empty() {
        m.msgstr = Some(m.msgstr.unwrap_or_default());
    } else {
        m.msgstr = None;
    }
    if let Some(c) = &m.comment {
        let ls: Vec<&str> = c.split('\n').filter(|l| !l.trim().is_empty()).collect();
        m.comment = if ls.is_empty() { None } else { Some(ls.join("\n")) };
    }
    m
}

/// A document's content: header, metadata block (if any), messages.
#[derive(Clone, Debug)]
pub struct Content {
    pub header: Option<String>,
    pub block: Option<Block>,
    pub entries: Vec<M>,
}

#[derive(Clone, Debug)]
pub struct Block {
    /// In the order they are written.
    pub items: Vec<(String, String)>,
    pub flags: Vec<String>,
    pub trailing_newline: bool,
}

impl Block {
    pub fn text(&self, sep: &[(String, String)]) -> String {
        let mut v = String::new();
        for (i, (k, x)) in self.items.iter().enumerate() {
            let (a, b) = sep.get(i).map(|x| (x.0.as_str(), x.1.as_str())).unwrap_or((" ", ""));
            v.push_str(k);
            v.push(':');
            v.push_str(a);
            v.push_str(x);
            v.push_str(b);
            if i + 1 < self.items.len() || self.trailing_newline {
                v.push('\n');
            }
        }
        v
    }
}

impl Content {
    pub fn cat(&self) -> Cat {
        Cat {
            header: self.header.clone(),
            metadata: self.block.iter().flat_map(|b| b.items.iter().cloned()).collect(),
            fuzzy: self.block.iter().any(|b| b.flags.iter().any(|f| f == "fuzzy")),
            entries: self.entries.clone(),
        }
    }
}

pub fn block(s: &mut Src) -> Block {
    let n = s.size(8);
    let mut items: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let k = gen::meta_key(s);
        if items.iter().all(|(x, _)| *x != k) {
            items.push((k, gen::meta_value(s)));
        }
    }
    if s.one_in(400) {
        let n = gen::big(s).min(600);
        items.extend((0..n).map(|i| (format!("X-Many-{i}"), i.to_string())));
    }
    Block {
        items,
        flags: match s.weighted(&[4, 2, 1]) {
            0 => vec![],
            1 => vec!["fuzzy".into()],
            _ => gen::flags(s),
        },
        trailing_newline: !s.one_in(4),
    }
}

pub fn content(s: &mut Src, max: usize) -> Content {
    let header = match s.weighted(&[2, 3]) {
        0 => None,
        _ => {
            let h = gen::comment(s);
            let h = h.trim_end_matches('\n').to_string();
            Some(h)
        }
    };
    let block = if s.weighted(&[1, 3]) == 1 { Some(block(s)) } else { None };
    let n = s.size(max);
    let entries: Vec<M> = (0..n).map(|_| doc_message(s)).collect();
    let mut entries = gen::many(s, entries, 4000, |e, i| {
        if i > 3 {
            *e = M { msgid: format!("m{i}"), msgstr: Some(format!("t{i}")), obsolete: e.obsolete, ..M::default() }
        }
    });
    if block.is_none() {
        if let Some(e) = entries.first_mut() {
            // these lines would belong to the header
            e.tcomment = None;
        }
    }
    Content { header, block, entries }
}

pub struct Printer<'a, 'b> {
    pub s: &'a mut Src,
    pub st: Style,
    pub out: &'b mut Vec<Line>,
    pub owner: Option<usize>,
}

impl Printer<'_, '_> {
    fn crlf(&mut self) -> bool {
        match self.st.eol {
            0 => false,
            1 => true,
            _ => self.s.bool(),
        }
    }
    fn ws(&mut self, min: usize) -> String {
        if !self.st.indent {
            return " ".repeat(min);
        }
        let n = min + self.s.weighted(&[6, 2, 1]);
        (0..n).map(|_| if self.s.one_in(4) { '\t' } else { ' ' }).collect()
    }
    fn blank(&mut self) {
        if self.st.blank && self.s.one_in(5) {
            self.blank_line();
        }
    }
    fn blank_line(&mut self) {
        let text = match self.s.weighted(&[10, 10, 1]) {
            0 => String::new(),
            1 => self.ws(0),
            _ => self.s.pick(&["\x0c", "\x0b", "\u{a0}", "\u{3000}", "\u{85}", "\u{2028}"]).to_string(),
        };
        let crlf = self.crlf();
        self.out.push(Line { text, kind: K::Blank, owner: None, crlf });
    }
    pub fn line(&mut self, body: &str, kind: K) {
        let a = self.ws(0);
        let b = self.ws(0);
        let crlf = self.crlf();
        self.out.push(Line { text: format!("{a}{body}{b}"), kind, owner: self.owner, crlf });
        self.blank();
    }
    fn noise(&mut self) {
        if self.st.noise && self.s.one_in(4) {
            let t = *self.s.pick(&["#.", "#:", "#,", "#. ", "#:  "]);
            let crlf = self.crlf();
            self.out.push(Line { text: t.to_string(), kind: K::Noise, owner: self.owner, crlf });
        }
    }
    /// The raw forms of the characters of a string.
    fn atoms(&mut self, v: &str) -> Vec<String> {
        v.chars()
            .map(|c| match c {
                '"' => "\\\"".to_string(),
                '\\' => "\\\\".to_string(),
                '\n' => "\\n".to_string(),
                '\t' if self.s.bool() => "\\t".to_string(),
                '\r' if self.s.bool() => "\\r".to_string(),
                '\u{8}' if self.s.bool() => "\\b".to_string(),
                c => c.to_string(),
            })
            .collect()
    }
    fn pieces(&mut self, v: &str) -> Vec<String> {
        let at = self.atoms(v);
        if !self.st.split || at.is_empty() {
            return vec![at.concat()];
        }
        let mut p: Vec<String> = vec![];
        if self.s.bool() {
            p.push(String::new());
        }
        let k = self.s.below(4);
        let mut cuts: Vec<usize> = (0..k).map(|_| self.s.below(at.len() + 1)).collect();
        cuts.sort();
        let mut prev = 0;
        for c in cuts {
            p.push(at[prev..c].concat());
            prev = c;
        }
        p.push(at[prev..].concat());
        p
    }
    pub fn field(&mut self, marker: &str, keyword: &str, v: &str, kind: K, cont: K) {
        let ps = self.pieces(v);
        for (i, p) in ps.iter().enumerate() {
            let mut body = String::new();
            if !marker.is_empty() {
                body.push_str(marker);
                body.push_str(&self.ws(1));
            }
            if i == 0 {
                body.push_str(keyword);
                body.push_str(&self.ws(1));
            }
            body.push('"');
            body.push_str(p);
            body.push('"');
            self.line(&body, if i == 0 { kind } else { cont });
        }
    }
    fn comment(&mut self, marker: &str, text: &str, kind: K) {
        let body = if text.is_empty() { marker.to_string() } else { format!("{marker} {text}") };
        self.line(&body, kind);
    }
    pub fn header(&mut self, h: &str) {
        for l in h.split('\n') {
            self.comment("#", l, K::Header);
        }
    }
    pub fn message(&mut self, m: &M) {
        // groups of lines that come before the strings
        #[derive(Clone)]
        enum G {
            T(String),
            C(String),
            O(Vec<(String, String)>),
            F(Vec<String>),
            P(u8, String),
        }
        let mut lanes: Vec<Vec<G>> = vec![];
        if let Some(t) = &m.tcomment {
            lanes.push(t.split('\n').map(|l| G::T(l.to_string())).collect());
        }
        if let Some(t) = &m.comment {
            lanes.push(t.split('\n').map(|l| G::C(l.to_string())).collect());
        }
        let mut os = vec![];
        let mut rest = &m.occurrences[..];
        while !rest.is_empty() {
            let k = if self.st.interleave { 1 + self.s.below(rest.len()) } else { rest.len() };
            os.push(G::O(rest[..k].to_vec()));
            rest = &rest[k..];
        }
        lanes.push(os);
        let mut fs = vec![];
        let mut rest = &m.flags[..];
        while !rest.is_empty() {
            let k = if self.st.interleave { 1 + self.s.below(rest.len()) } else { rest.len() };
            fs.push(G::F(rest[..k].to_vec()));
            rest = &rest[k..];
        }
        lanes.push(fs);
        for (i, p) in [&m.previous_msgctxt, &m.previous_msgid, &m.previous_msgid_plural].into_iter().enumerate() {
            if let Some(p) = p {
                lanes.push(vec![G::P(i as u8, p.clone())]);
            }
        }
        lanes.retain(|l| !l.is_empty());
        let mut seq = vec![];
        while !lanes.is_empty() {
            let i = if self.st.interleave { self.s.below(lanes.len()) } else { 0 };
            seq.push(lanes[i].remove(0));
            if lanes[i].is_empty() {
                lanes.remove(i);
            }
        }
        for g in seq {
            match g {
                G::T(t) => {
                    let mk = if self.st.noise && self.s.one_in(6) { *self.s.pick(&["##", "###"]) } else { "#" };
                    if mk.len() > 1 && !t.is_empty() && !t.starts_with(|c: char| c == '#' || c.is_whitespace()) && self.s.one_in(3) {
                        self.line(&format!("{mk}{t}"), K::Tc)
                    } else {
                        self.comment(mk, &t, K::Tc)
                    }
                }
                G::C(t) => self.comment("#.", &t, K::Gc),
                G::O(v) => {
                    let mut b = String::from("#:");
                    for (f, l) in v {
                        b.push_str(&self.ws(1));
                        b.push_str(&f);
                        if !l.is_empty() {
                            b.push(':');
                            b.push_str(&l);
                        }
                    }
                    self.line(&b, K::Oc);
                }
                G::F(v) => {
                    let mut b = String::from("#,");
                    for (i, f) in v.iter().enumerate() {
                        if i > 0 {
                            let w = self.ws(0);
                            b.push_str(&w);
                            b.push(',');
                        }
                        let w = self.ws(1);
                        b.push_str(&w);
                        b.push_str(f);
                    }
                    self.line(&b, K::Fl);
                }
                G::P(i, p) => {
                    let kw = ["msgctxt", "msgid", "msgid_plural"][i as usize];
                    self.field("#|", kw, &p, K::Prev(i), K::PrevCont);
                }
            }
            self.noise();
        }
        self.strings(m);
    }
    pub fn strings(&mut self, m: &M) {
        let mk = if m.obsolete { "#~" } else { "" };
        if m.obsolete && self.st.noise && self.s.one_in(3) {
            // previous ids of obsolete messages
            for _ in 0..self.s.range(1, 2) {
                let t = *self.s.pick(&["#~| msgid \"old\"", "#~| msgctxt \"\"", "#~| \"more\"", "#~| msgid_plural \"olds\""]);
                let crlf = self.crlf();
                self.out.push(Line { text: t.to_string(), kind: K::Noise, owner: self.owner, crlf });
            }
        }
        if let Some(c) = &m.msgctxt {
            self.field(mk, "msgctxt", c, K::Ct, K::Cont);
        }
        self.field(mk, "msgid", &m.msgid, K::Mi, K::Cont);
        if let Some(p) = &m.msgid_plural {
            self.field(mk, "msgid_plural", p, K::Mp, K::Cont);
        }
        if m.msgstr_plural.is_empty() {
            let v = m.msgstr.clone().unwrap_or_default();
            self.field(mk, "msgstr", &v, K::Ms, K::Cont);
        } else {
            let mut ix: Vec<usize> = (0..m.msgstr_plural.len()).collect();
            // a form more than 255 ahead of the ones before it is rejected
            if ix.len() <= 256 && self.st.interleave && self.s.bool() {
                for i in (1..ix.len()).rev() {
                    let j = self.s.below(i + 1);
                    ix.swap(i, j);
                }
            }
            for i in ix {
                self.field(mk, &format!("msgstr[{i}]"), &m.msgstr_plural[i], K::Mx, K::Cont);
            }
        }
    }
    pub fn separator(&mut self) {
        // messages are usually, but need not be, separated
        let n = if self.st.blank { self.s.weighted(&[1, 4, 1]) } else { 1 };
        for _ in 0..n {
            let crlf = self.crlf();
            let text = if self.st.blank && self.s.one_in(8) { self.ws(1) } else { String::new() };
            self.out.push(Line { text, kind: K::Blank, owner: None, crlf });
        }
    }
}

/// Print `c` in the given style.
pub fn print(s: &mut Src, c: &Content, st: Style) -> Doc {
    let mut lines = vec![];
    let mut item = 0;
    {
        let mut p = Printer { s, st, out: &mut lines, owner: None };
        while st.blank && p.out.len() < 3 && p.s.one_in(6) {
            p.blank_line();
        }
        if let Some(h) = &c.header {
            p.header(h);
        }
        if let Some(b) = &c.block {
            p.owner = Some(item);
            item += 1;
            let m = M { msgstr: Some(b.text(&[])), flags: b.flags.clone(), ..Default::default() };
            p.message(&m);
        }
        for (i, e) in c.entries.iter().enumerate() {
            if i > 0 || c.block.is_some() {
                p.separator();
            }
            p.owner = Some(item);
            item += 1;
            p.message(e);
        }
    }
    let bom = s.one_in(6);
    let final_eol = !s.one_in(5);
    let mut doc = Doc { bom, lines, final_eol };
    if st.indent && s.one_in(50) {
        doc.pad(s);
    }
    doc
}
