//! MO files written and read independently of the library.
use crate::engine::Src;
use crate::model::*;

pub const MAGIC: u32 = 0x950412de;

pub fn u32_at(b: &[u8], at: usize, be: bool) -> Option<u32> {
    let x: [u8; 4] = b.get(at..at.checked_add(4)?)?.try_into().ok()?;
    Some(if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) })
}

pub fn put(b: &mut [u8], at: usize, v: u32, be: bool) {
    let x = if be { v.to_be_bytes() } else { v.to_le_bytes() };
    b[at..at + 4].copy_from_slice(&x);
}

#[derive(Debug)]
pub struct Raw {
    pub be: bool,
    pub revision: u32,
    pub n: usize,
    pub o: usize,
    pub t: usize,
    pub hash_size: usize,
    pub hash_off: usize,
    /// (offset, length) of every original and translation
    pub orig: Vec<(usize, usize)>,
    pub trans: Vec<(usize, usize)>,
}

/// Strict reading: every rule of the format that concerns all consumers.
pub fn read_strict(b: &[u8]) -> Result<Raw, String> {
    let be = match u32_at(b, 0, false) {
        Some(MAGIC) => false,
        Some(x) if x == MAGIC.swap_bytes() => true,
        x => return Err(format!("bad magic number {x:x?}")),
    };
    let f = |i: usize| u32_at(b, 4 * i, be).ok_or(format!("no header field {i}"));
    let revision = f(1)?;
    let n = f(2)? as usize;
    let (o, t, hs, ho) = (f(3)? as usize, f(4)? as usize, f(5)? as usize, f(6)? as usize);
    let mut spans: Vec<(usize, usize, String)> = vec![(0, 28, "header".into())];
    if n > 0 {
        spans.push((o, o + 8 * n, "originals table".into()));
        spans.push((t, t + 8 * n, "translations table".into()));
    }
    if hs > 0 {
        spans.push((ho, ho + 4 * hs, "hash table".into()));
    }
    let mut orig = vec![];
    let mut trans = vec![];
    for (name, table, out) in [("original", o, &mut orig), ("translation", t, &mut trans)] {
        for i in 0..n {
            let len = u32_at(b, table + 8 * i, be).ok_or(format!("{name} table past the end"))? as usize;
            let off = u32_at(b, table + 8 * i + 4, be).ok_or(format!("{name} table past the end"))? as usize;
            if off + len + 1 > b.len() {
                return Err(format!("{name} {i} ({off}+{len}) past the end ({})", b.len()));
            }
            if b[off + len] != 0 {
                return Err(format!("{name} {i} is not NUL terminated"));
            }
            spans.push((off, off + len + 1, format!("{name} {i}")));
            out.push((off, len));
        }
    }
    spans.sort();
    for w in spans.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("{} ({}..{}) and {} ({}..{}) overlap", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
        }
    }
    for w in orig.windows(2) {
        let (x, y) = (&b[w[0].0..w[0].0 + w[0].1], &b[w[1].0..w[1].0 + w[1].1]);
        if key_of(x) > key_of(y) {
            return Err(format!("originals are not sorted: {:?} before {:?}", String::from_utf8_lossy(x), String::from_utf8_lossy(y)));
        }
    }
    Ok(Raw { be, revision, n, o, t, hash_size: hs, hash_off: ho, orig, trans })
}

/// Up to the first NUL, as strcmp sees it.
pub fn key_of(x: &[u8]) -> &[u8] {
    let n = x.iter().position(|c| *c == 0).unwrap_or(x.len());
    &x[..n]
}

impl Raw {
    pub fn original<'a>(&self, b: &'a [u8], i: usize) -> &'a [u8] {
        &b[self.orig[i].0..self.orig[i].0 + self.orig[i].1]
    }
    pub fn translation<'a>(&self, b: &'a [u8], i: usize) -> &'a [u8] {
        &b[self.trans[i].0..self.trans[i].0 + self.trans[i].1]
    }
    /// Binary search as done by gettext without a hash table.
    pub fn lookup<'a>(&self, b: &'a [u8], key: &[u8]) -> Option<&'a [u8]> {
        let (mut lo, mut hi) = (0, self.n);
        while lo < hi {
            let mid = (lo + hi) / 2;
            match key.cmp(key_of(self.original(b, mid))) {
                std::cmp::Ordering::Less => hi = mid,
                std::cmp::Ordering::Greater => lo = mid + 1,
                std::cmp::Ordering::Equal => return Some(self.translation(b, mid)),
            }
        }
        None
    }
}

pub fn original_bytes(m: &Mo) -> Vec<u8> {
    let mut v = m.key().into_bytes();
    if let Some(p) = &m.msgid_plural {
        v.push(0);
        v.extend(p.as_bytes());
    }
    v
}

pub fn translation_bytes(m: &Mo) -> Vec<u8> {
    if m.msgid_plural.is_some() {
        m.msgstr_plural.join("\0").into_bytes()
    } else {
        m.msgstr.clone().unwrap_or_default().into_bytes()
    }
}

pub fn metadata_text(m: &Meta) -> String {
    m.iter().map(|(k, v)| format!("{k}: {v}\n")).collect()
}

/// Where things are in a built file.
pub struct Built {
    pub bytes: Vec<u8>,
    pub be: bool,
    pub n: usize,
    pub o: usize,
    pub t: usize,
    pub last_data: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub be: bool,
    pub revision: u32,
    pub strings_first: bool,
    pub swap_tables: bool,
    pub hash: u8,
    pub align: usize,
    pub gaps: bool,
    pub share: bool,
    pub shuffle: bool,
    pub interleave: bool,
    pub trailing: bool,
}

impl Plan {
    pub fn any(s: &mut Src) -> Plan {
        Plan {
            be: s.bool(),
            revision: s.upto(1) as u32,
            strings_first: s.one_in(3),
            swap_tables: s.one_in(3),
            hash: s.weighted(&[3, 2, 1]) as u8,
            align: *s.pick(&[1usize, 1, 4, 8, 16]),
            gaps: s.one_in(3),
            share: s.one_in(3),
            shuffle: s.one_in(3),
            interleave: s.one_in(3),
            trailing: s.one_in(4),
        }
    }
}

/// Build an MO file from pairs of (original, translation) in the given order.
pub fn build(s: &mut Src, pairs: &[(Vec<u8>, Vec<u8>)], p: Plan) -> Built {
    let n = pairs.len();
    let mut b: Vec<u8> = vec![0; 28];
    let gap = |s: &mut Src, b: &mut Vec<u8>| {
        if p.gaps && s.bool() {
            let k = s.range(1, 9);
            for _ in 0..k {
                b.push(*s.pick(&[0u8, 0xff, b'x', 4]));
            }
        }
        while b.len() % p.align != 0 {
            b.push(0);
        }
    };
    let mut o = 28;
    let mut t = 28;
    let hash_size = match p.hash {
        0 => 0,
        1 => n + 3,
        _ => 1,
    };
    let mut hash_off = 28;
    let tables = |s: &mut Src, b: &mut Vec<u8>, o: &mut usize, t: &mut usize, h: &mut usize| {
        gap(s, b);
        if p.swap_tables {
            *t = b.len();
            b.resize(*t + 8 * n, 0);
            gap(s, b);
            *o = b.len();
            b.resize(*o + 8 * n, 0);
        } else {
            *o = b.len();
            b.resize(*o + 8 * n, 0);
            gap(s, b);
            *t = b.len();
            b.resize(*t + 8 * n, 0);
        }
        if hash_size > 0 {
            gap(s, b);
            *h = b.len();
            for i in 0..hash_size {
                let v = (i as u32).wrapping_mul(0x01010101);
                b.extend(if p.be { v.to_be_bytes() } else { v.to_le_bytes() });
            }
        } else {
            *h = b.len();
        }
    };
    if !p.strings_first {
        tables(s, &mut b, &mut o, &mut t, &mut hash_off);
    }
    // strings: (is_translation, index)
    let mut order: Vec<(bool, usize)> = vec![];
    if p.interleave {
        for i in 0..n {
            order.push((false, i));
            order.push((true, i));
        }
    } else {
        order.extend((0..n).map(|i| (false, i)));
        order.extend((0..n).map(|i| (true, i)));
    }
    if p.shuffle {
        for i in (1..order.len()).rev() {
            let j = s.below(i + 1);
            order.swap(i, j);
        }
    }
    let mut at: Vec<[(usize, usize); 2]> = vec![[(0, 0); 2]; n];
    let mut seen: Vec<(Vec<u8>, usize)> = vec![];
    let mut last_data = 0;
    for (tr, i) in order {
        let d = if tr { &pairs[i].1 } else { &pairs[i].0 };
        if p.share {
            if let Some((_, off)) = seen.iter().find(|(x, _)| x == d) {
                at[i][tr as usize] = (*off, d.len());
                continue;
            }
        }
        gap(s, &mut b);
        let off = b.len();
        b.extend(d);
        b.push(0);
        seen.push((d.clone(), off));
        at[i][tr as usize] = (off, d.len());
        if !d.is_empty() {
            last_data = last_data.max(off + d.len());
        }
    }
    if p.strings_first {
        tables(s, &mut b, &mut o, &mut t, &mut hash_off);
        if n > 0 {
            last_data = last_data.max(o.max(t) + 8 * n);
        }
    }
    if p.trailing {
        gap(s, &mut b);
        b.extend(b"trailing");
    }
    put(&mut b, 0, MAGIC, p.be);
    put(&mut b, 4, p.revision, p.be);
    put(&mut b, 8, n as u32, p.be);
    put(&mut b, 12, o as u32, p.be);
    put(&mut b, 16, t as u32, p.be);
    put(&mut b, 20, hash_size as u32, p.be);
    put(&mut b, 24, hash_off as u32, p.be);
    for (i, a) in at.iter().enumerate() {
        put(&mut b, o + 8 * i, a[0].1 as u32, p.be);
        put(&mut b, o + 8 * i + 4, a[0].0 as u32, p.be);
        put(&mut b, t + 8 * i, a[1].1 as u32, p.be);
        put(&mut b, t + 8 * i + 4, a[1].0 as u32, p.be);
    }
    Built { bytes: b, be: p.be, n, o, t, last_data }
}
