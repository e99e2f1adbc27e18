//! Property testing engine.
//!
//! A case is a pure function of a tape of bounded integers.  While exploring,
//! the tape is drawn from a generator seeded by (VERIF_SEED, property, case
//! index); a failing tape is shrunk by deleting, zeroing and lowering draws,
//! and the shrunk tape is the replay file.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub type Res = Result<(), String>;

/// `fail!("...")`: the property does not hold for this case.
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
/// `ensure!(cond, "...")`
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } } }

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

/// Fixed hash, the same in every process.
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

type Tee = Box<dyn FnMut(u64)>;
thread_local! {
    static TEE: RefCell<Option<Tee>> = const { RefCell::new(None) };
}
/// Observe every draw as it is made (used to recover the tape of a case that
/// kills the process).
pub fn set_tee(t: Option<Tee>) {
    TEE.with(|x| *x.borrow_mut() = t);
}

/// Source of the choices a case is made from.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    tee: bool,
}

impl Src {
    pub fn random(seed: u64, prop: &str, index: u64) -> Self {
        let mut r = Rng::new(seed ^ fnv(prop.as_bytes()).rotate_left(17));
        let a = r.next();
        let mut r = Rng::new(a ^ index.wrapping_mul(0xd1342543de82ef95));
        r.next();
        Src { tape: vec![], pos: 0, rng: Some(r), rec: Vec::with_capacity(64), tee: true }
    }
    pub fn replay(tape: &[u64]) -> Self {
        Src { tape: tape.to_vec(), pos: 0, rng: None, rec: Vec::with_capacity(tape.len()), tee: false }
    }
    /// A number in 0..=max; smaller is simpler.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if max == u64::MAX {
                    x
                } else {
                    ((x as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                v.min(max)
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if self.tee {
            TEE.with(|t| match t.borrow_mut().as_mut() {
                Some(t) => t(v),
                None => self.tee = false,
            });
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// True once in `n`.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.upto(n - 1) == n - 1 && n > 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights; put the simplest first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.upto(total - 1);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// Mostly small lengths, sometimes up to `max`.
    pub fn size(&mut self, max: usize) -> usize {
        match self.weighted(&[50, 32, 13, 5]) {
            0 => self.below(max.min(3) + 1),
            1 => self.below(max.min(8) + 1),
            2 => self.below(max.min(30) + 1),
            _ => self.below(max + 1),
        }
    }
}

/// What one case reports about itself.
pub struct Ctx {
    pub verbose: bool,
    pub desc: String,
    pub nontrivial: bool,
    pub key: u64,
    pub labels: Vec<&'static str>,
    pub known: Vec<String>,
    pub scratch: PathBuf,
}

impl Ctx {
    pub fn new(verbose: bool, scratch: PathBuf) -> Self {
        Ctx {
            verbose,
            desc: String::new(),
            nontrivial: false,
            key: 0,
            labels: vec![],
            known: vec![],
            scratch,
        }
    }
    /// Identity of the case, for counting distinct ones.
    pub fn key<T: Hash>(&mut self, t: &T) {
        self.key = hash_of(t);
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            if !self.desc.is_empty() {
                self.desc.push('\n');
            }
            self.desc.push_str(&f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: CaseFn,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Verdict {
    Ok,
    Fail(String),
    /// The harness itself panicked.
    Broken(String),
}

/// Run one case.  A panic raised in code of this crate is an error of the
/// harness; any other panic comes from the library and fails the case.
pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Verdict {
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(src, ctx)));
    match r {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(e)) => Verdict::Fail(e),
        Err(_) => {
            let (msg, loc) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("src/") || loc.contains("/harness/src/") {
                Verdict::Broken(format!("harness panic at {loc}: {msg}"))
            } else {
                Verdict::Fail(format!("the library panicked at {loc}: {msg}"))
            }
        }
    }
}

/// Shrink a failing tape.  `fails` returns the tape actually consumed and the
/// message if the candidate still fails.
pub fn shrink(
    tape: Vec<u64>,
    msg: String,
    budget: usize,
    mut fails: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String) {
    let mut best = tape;
    let mut best_msg = msg;
    let mut left = budget;
    // long tapes make slow cases; the limit on time only ends the shrinking
    let start = std::time::Instant::now();
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    let mut try_it = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String, left: &mut usize| {
        if *left == 0 {
            return false;
        }
        *left = left.saturating_sub(1 + cand.len() / 2000);
        if start.elapsed().as_secs() >= 40 {
            *left = 0;
        }
        if let Some((rec, m)) = fails(cand) {
            let mut rec = rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            if better(&rec, best) {
                *best = rec;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut ks = vec![];
        let mut k = best.len() / 2;
        while k > 64 {
            ks.push(k);
            k /= 2;
        }
        ks.extend([64usize, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1]);
        for k in ks {
            let mut i = best.len() as isize - k as isize;
            while i >= 0 && left > 0 {
                let iu = i as usize;
                if iu + k > best.len() {
                    i -= 1;
                    continue;
                }
                let mut c = best.clone();
                c.drain(iu..iu + k);
                if !try_it(&c, &mut best, &mut best_msg, &mut left) {
                    // also lower the draw before it (a length)
                    if iu > 0 && best[iu - 1] > 0 {
                        let mut c = best.clone();
                        c.drain(iu..iu + k);
                        c[iu - 1] -= 1;
                        try_it(&c, &mut best, &mut best_msg, &mut left);
                    }
                    i -= if k > 8 { (k / 2) as isize } else { 1 };
                } else {
                    i -= 1;
                }
            }
        }
        // zero blocks
        for k in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() && left > 0 {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    try_it(&c, &mut best, &mut best_msg, &mut left);
                }
                i += k;
            }
        }
        // lower single draws
        let mut i = 0;
        while i < best.len() && left > 0 {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_it(&c, &mut best, &mut best_msg, &mut left) && i < best.len() {
                    // binary search for the least value that still fails
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_it(&c, &mut best, &mut best_msg, &mut left) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if left == 0 {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if left == 0 || best == before {
            break;
        }
    }
    (best, best_msg)
}

#[derive(Default)]
pub struct Tally {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
}

impl Tally {
    pub fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_string();
    }
    let mut t: String = s.chars().take(n).collect();
    t.push_str("…");
    t
}
