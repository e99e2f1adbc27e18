mod alloc;
#[macro_use]
mod engine;
mod gen;
mod layout;
mod mo;
mod model;
mod props;

use engine::*;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const BLOCK: u64 = 64;
const SHRINK_BUDGET: usize = 30_000;

fn env(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|v| !v.is_empty()).unwrap_or(d.to_string())
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        }
    }
}

fn evidence_dir() -> PathBuf {
    PathBuf::from(env("VH_EVIDENCE", "/verif/evidence"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => run(&a[2]),
        Some("worker") => worker(&a[2], a[3].parse().unwrap(), &a[4], Path::new(&a[5])),
        Some("tape") => one_tape(&a[2], &a[3], Path::new(&a[4])),
        Some("index") => one_index(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), Path::new(&a[5])),
        Some("replay") => replay(&a[2]),
        Some("show") => show(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        _ => {
            eprintln!("usage: vh list | run ID | replay FILE | show ID SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}

fn cases(p: &Prop, tier: &str) -> u64 {
    let n = if tier == "thorough" { p.thorough } else { p.quick };
    match std::env::var("VH_CASES").ok().and_then(|v| v.parse().ok()) {
        Some(n) => n,
        None => n,
    }
}

fn scratch_dir(tag: &str) -> PathBuf {
    let mut base = PathBuf::from(env("TMPDIR", "/tmp"));
    base.push(format!("vh-{}-{}", tag, std::process::id()));
    let _ = fs::remove_dir_all(&base);
    fs::create_dir_all(&base).expect("scratch directory");
    base
}

fn tape_str(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit())
        .filter(|x| !x.is_empty())
        .filter_map(|x| x.parse().ok())
        .collect()
}

/// Write the replay file and print the violation line.
fn report(p: &Prop, seed: u64, tape: &[u64], msg: &str, desc: &str) {
    let dir = evidence_dir();
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("replay-{}.json", p.id));
    let j = format!(
        "{{\"property\": {}, \"seed\": {}, \"tape\": [{}],\n \"message\": {},\n \"case\": {}}}\n",
        jstr(p.id),
        seed,
        tape_str(tape),
        jstr(&clip(msg, 4000)),
        jstr(&clip(desc, 8000))
    );
    fs::write(&path, j).expect("write replay");
    println!("{}: {}", p.id, clip(msg, 1500));
    println!("case: {}", clip(desc, 3000));
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

fn describe(p: &Prop, tape: &[u64], scratch: &Path) -> (String, String) {
    let mut s = Src::replay(tape);
    let mut c = Ctx::new(true, scratch.to_path_buf());
    let m = match run_case(p, &mut s, &mut c) {
        Verdict::Ok => String::new(),
        Verdict::Fail(m) | Verdict::Broken(m) => m,
    };
    (m, c.desc)
}

// ---------------------------------------------------------------- worker

struct Shared {
    next: AtomicU64,
    stop_at: AtomicU64,
    broken: Mutex<Option<String>>,
    fail: Mutex<Option<(u64, Vec<u64>, String)>>,
    any: AtomicBool,
}

/// Explores; exit 0 held, 1 violation (reported), 3 error of the harness.
fn worker(id: &str, seed: u64, tier: &str, scratch: &Path) -> i32 {
    std::env::set_current_dir(scratch).expect("scratch");
    install_panic_hook();
    let p = find(id);
    let total = cases(&p, tier);
    let t0 = Instant::now();
    let journal = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(scratch.join("journal"))
        .expect("journal");
    let sh = Shared {
        next: AtomicU64::new(0),
        stop_at: AtomicU64::new(total),
        broken: Mutex::new(None),
        fail: Mutex::new(None),
        any: AtomicBool::new(false),
    };
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut tally = Tally::default();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..n {
            let (sh, journal) = (&sh, &journal);
            let dir = scratch.join(format!("t{t}"));
            fs::create_dir_all(&dir).expect("scratch");
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || explore(&p, seed, t as u64, dir, sh, journal))
                    .unwrap(),
            );
        }
        for h in hs {
            tally.merge(h.join().expect("worker thread"));
        }
    });
    if let Some(b) = sh.broken.lock().unwrap().take() {
        eprintln!("{id}: {b}");
        return 3;
    }
    let failure = sh.fail.lock().unwrap().take();
    let mut violations = 0;
    if let Some((index, tape, msg)) = failure {
        violations = 1;
        fs::write(scratch.join("found"), format!("{}\n{}", tape_str(&tape), msg)).ok();
        let dir = scratch.join("t0");
        let (found, told) = (tape.clone(), msg.clone());
        let (best, msg) = shrink(tape, msg, SHRINK_BUDGET, |cand| {
            let mut s = Src::replay(cand);
            let mut c = Ctx::new(false, dir.clone());
            match run_case(&p, &mut s, &mut c) {
                Verdict::Fail(m) => Some((s.rec, m)),
                _ => None,
            }
        });
        // a failure left behind by earlier calls may have been shrunk to a
        // case that holds in a new process
        let fails = |tape: &[u64]| {
            let tf = scratch.join("tape");
            fs::write(&tf, tape_str(tape)).is_ok()
                && isolated(&["tape".into(), p.id.into(), tf.display().to_string(), dir.display().to_string()]).0 == Some(10)
        };
        let (best, msg) = if !fails(&best) && fails(&found) { (found, told) } else { (best, msg) };
        let (_, desc) = describe(&p, &best, &dir);
        println!("{id}: failed at case {index} of seed {seed}");
        report(&p, seed, &best, &msg, &desc);
    }
    // samples: the first few non-trivial cases, written out
    let mut samples = vec![];
    if violations == 0 {
        let dir = scratch.join("t0");
        let mut i = 0;
        while samples.len() < 4 && i < total.min(400) {
            let mut s = Src::random(seed, p.id, i);
            let mut c = Ctx::new(true, dir.clone());
            let _ = run_case(&p, &mut s, &mut c);
            if c.nontrivial {
                samples.push(clip(&c.desc, 900));
                i += 7;
            }
            i += 1;
        }
    }
    for (k, v) in &tally.known {
        println!("KNOWN-FINDING: property={} {} ({} cases)", p.id, k, v);
    }
    write_evidence(&p, tier, seed, &tally, &samples, violations, t0.elapsed().as_secs_f64());
    println!(
        "{id}: {} cases, {} distinct non-trivial, {:.1} s, {}",
        tally.evaluations,
        tally.nontrivial.len(),
        t0.elapsed().as_secs_f64(),
        if violations == 0 { "held" } else { "VIOLATED" }
    );
    violations
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, t: &Tally, samples: &[String], violations: i32, wall: f64) {
    let dir = evidence_dir();
    let _ = fs::create_dir_all(&dir);
    let classes = t
        .labels
        .iter()
        .map(|(k, v)| format!("{}: {}", jstr(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let samples = samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n    ");
    let assumptions = p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
    let j = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [\n    {}]}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}}}\n",
        jstr(p.id),
        jstr(tier),
        seed,
        t.evaluations,
        t.nontrivial.len(),
        jstr(p.rule),
        classes,
        samples,
        assumptions,
        wall,
        violations
    );
    fs::write(dir.join(format!("{}.json", p.id)), j).expect("write evidence");
}

fn explore(p: &Prop, seed: u64, slot: u64, dir: PathBuf, sh: &Shared, journal: &fs::File) -> Tally {
    let mut t = Tally::default();
    loop {
        let start = sh.next.fetch_add(BLOCK, Ordering::SeqCst);
        if start >= sh.stop_at.load(Ordering::SeqCst) {
            break;
        }
        for i in start..start + BLOCK {
            if i >= sh.stop_at.load(Ordering::Relaxed) {
                break;
            }
            journal.write_at(&(i + 1).to_le_bytes(), slot * 8).ok();
            let mut s = Src::random(seed, p.id, i);
            let mut c = Ctx::new(false, dir.clone());
            let v = run_case(p, &mut s, &mut c);
            t.evaluations += 1;
            match v {
                Verdict::Ok => {
                    if c.nontrivial {
                        t.nontrivial.insert(c.key);
                    }
                    for l in c.labels {
                        *t.labels.entry(l).or_default() += 1;
                    }
                    for k in c.known {
                        *t.known.entry(k).or_default() += 1;
                    }
                }
                Verdict::Fail(m) => {
                    sh.any.store(true, Ordering::SeqCst);
                    let mut f = sh.fail.lock().unwrap();
                    if f.as_ref().map_or(true, |(j, _, _)| i < *j) {
                        *f = Some((i, s.rec, m));
                    }
                    sh.stop_at.fetch_min(i, Ordering::SeqCst);
                }
                Verdict::Broken(m) => {
                    *sh.broken.lock().unwrap() = Some(format!("case {i} of seed {seed}: {m}"));
                    sh.stop_at.store(0, Ordering::SeqCst);
                }
            }
        }
    }
    journal.write_at(&0u64.to_le_bytes(), slot * 8).ok();
    t
}

// ---------------------------------------------------------------- parent

fn spawn_self(args: &[String]) -> Command {
    let exe = std::env::current_exe().expect("current exe");
    let mut c = Command::new(exe);
    c.args(args);
    c
}

fn run(id: &str) -> i32 {
    let p = find(id);
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = env("VERIF_TIER", "quick");
    let limit = if tier == "thorough" { 6 * 3600 } else { 800 };
    let _ = fs::remove_file(evidence_dir().join(format!("{id}.json")));
    let _ = fs::remove_file(evidence_dir().join(format!("replay-{id}.json")));
    let scratch = scratch_dir(id);
    let code = supervise(&p, seed, &tier, limit, &scratch);
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn supervise(p: &Prop, seed: u64, tier: &str, limit: u64, scratch: &Path) -> i32 {
    let mut child = spawn_self(&[
        "worker".into(),
        p.id.into(),
        seed.to_string(),
        tier.into(),
        scratch.display().to_string(),
    ])
    .spawn()
    .expect("spawn worker");
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        if t0.elapsed().as_secs() > limit {
            let _ = child.kill();
            let _ = child.wait();
            eprintln!("{}: no result within {limit} s, inconclusive", p.id);
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    match (status.code(), status.signal()) {
        (Some(0), _) => 0,
        (Some(1), _) => 1,
        (_, Some(sig)) if sig == 6 || sig == 11 || sig == 4 || sig == 7 || sig == 8 => {
            crashed(p, seed, tier, sig, scratch, t0.elapsed().as_secs_f64())
        }
        (c, s) => {
            eprintln!("{}: worker ended with {c:?} {s:?}", p.id);
            2
        }
    }
}

/// How a single tape ends when run in a process of its own.
fn isolated(args: &[String]) -> (Option<i32>, Option<i32>, String) {
    let mut c = spawn_self(args);
    c.stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return (None, None, e.to_string()),
    };
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                let mut out = String::new();
                if let Some(mut o) = ch.stdout.take() {
                    use std::io::Read;
                    let _ = o.read_to_string(&mut out);
                }
                return (s.code(), s.signal(), out);
            }
            Ok(None) if t0.elapsed().as_secs() > 20 => {
                let _ = ch.kill();
                let _ = ch.wait();
                return (None, None, "timeout".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(1)),
            Err(e) => return (None, None, e.to_string()),
        }
    }
}

/// The worker was killed by a signal: find the case that did it.
fn crashed(p: &Prop, seed: u64, tier: &str, sig: i32, scratch: &Path, wall: f64) -> i32 {
    let mut t = Tally::default();
    if let Ok(found) = fs::read_to_string(scratch.join("found")) {
        // an ordinary failure was found; shrinking it crashed
        let (tape, msg) = found.split_once('\n').unwrap_or((&found, ""));
        report(p, seed, &parse_tape(tape), msg, "(not shrunk)");
        t.evaluations = 1;
        write_evidence(p, tier, seed, &t, &[], 1, wall);
        return 1;
    }
    let j = fs::read(scratch.join("journal")).unwrap_or_default();
    let mut idx: Vec<u64> = j
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|x| *x > 0)
        .map(|x| x - 1)
        .collect();
    idx.sort_unstable();
    let dir = scratch.join("t0");
    for i in idx {
        let tf = scratch.join("tape");
        let a: Vec<String> = vec![
            "index".into(),
            p.id.into(),
            seed.to_string(),
            i.to_string(),
            dir.display().to_string(),
        ];
        let (_, s, _) = isolated(&a);
        if s.is_none() {
            continue;
        }
        // regenerate the tape: the draws are recorded as they are made
        let tape = parse_tape(&fs::read_to_string(dir.join("tape.rec")).unwrap_or_default());
        let msg = format!("reading or writing this input killed the process (signal {sig})");
        let (best, msg) = shrink(tape, msg, 400, |cand| {
            fs::write(&tf, tape_str(cand)).ok()?;
            let (_, s, _) = isolated(&[
                "tape".into(),
                p.id.into(),
                tf.display().to_string(),
                dir.display().to_string(),
            ]);
            s.map(|s| (cand.to_vec(), format!("the process was killed by signal {s} on this input")))
        });
        report(p, seed, &best, &msg, &format!("case {i} of seed {seed}; replay runs it"));
        t.evaluations = i + 1;
        write_evidence(p, tier, seed, &t, &[], 1, wall);
        return 1;
    }
    eprintln!("{}: worker killed by signal {sig} and no case reproduces it", p.id);
    2
}

fn one_index(id: &str, seed: u64, index: u64, scratch: &Path) -> i32 {
    std::env::set_current_dir(scratch).expect("scratch");
    install_panic_hook();
    let p = find(id);
    // the draws are written out as they are made, so that the tape is known
    // even if the case kills this process
    let mut r = Src::random(seed, id, index);
    let rec = scratch.join("tape.rec");
    let mut f = fs::File::create(&rec).expect("tape.rec");
    engine::set_tee(Some(Box::new(move |v| {
        let _ = write!(f, "{v},");
    })));
    let mut c = Ctx::new(false, scratch.to_path_buf());
    match run_case(&p, &mut r, &mut c) {
        Verdict::Ok => 0,
        Verdict::Fail(m) => {
            println!("{m}");
            10
        }
        Verdict::Broken(m) => {
            println!("{m}");
            3
        }
    }
}

fn one_tape(id: &str, tape_file: &str, scratch: &Path) -> i32 {
    std::env::set_current_dir(scratch).expect("scratch");
    install_panic_hook();
    let p = find(id);
    let tape = parse_tape(&fs::read_to_string(tape_file).expect("tape file"));
    let mut s = Src::replay(&tape);
    let mut c = Ctx::new(false, scratch.to_path_buf());
    match run_case(&p, &mut s, &mut c) {
        Verdict::Ok => 0,
        Verdict::Fail(m) => {
            println!("{m}");
            10
        }
        Verdict::Broken(m) => {
            println!("{m}");
            3
        }
    }
}

fn replay(file: &str) -> i32 {
    let text = fs::read_to_string(file).expect("replay file");
    let id = text
        .split("\"property\": \"")
        .nth(1)
        .and_then(|s| s.split('"').next())
        .expect("property")
        .to_string();
    let tape = text
        .split("\"tape\": [")
        .nth(1)
        .and_then(|s| s.split(']').next())
        .map(parse_tape)
        .expect("tape");
    let p = find(&id);
    let scratch = scratch_dir("replay");
    let tf = scratch.join("tape");
    fs::write(&tf, tape_str(&tape)).expect("tape");
    let (code, sig, out) = isolated(&["tape".into(), id.clone(), tf.display().to_string(), scratch.display().to_string()]);
    let r = match (code, sig) {
        (Some(0), _) => {
            println!("{id}: the replayed case holds");
            0
        }
        (Some(10), _) => {
            install_panic_hook();
            let (m, d) = describe(&p, &tape, &scratch);
            println!("case: {d}\n{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        (_, Some(s)) => {
            println!("killed by signal {s}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        _ => {
            eprintln!("{id}: error: {out}");
            2
        }
    };
    let _ = fs::remove_dir_all(&scratch);
    r
}

fn show(id: &str, seed: u64, index: u64) -> i32 {
    install_panic_hook();
    let p = find(id);
    let scratch = scratch_dir("show");
    let mut s = Src::random(seed, id, index);
    let mut c = Ctx::new(true, scratch.clone());
    let v = run_case(&p, &mut s, &mut c);
    println!("{}\nlabels {:?} nontrivial {}", c.desc, c.labels, c.nontrivial);
    match v {
        Verdict::Ok => println!("ok"),
        Verdict::Fail(m) => println!("FAIL {m}"),
        Verdict::Broken(m) => println!("BROKEN {m}"),
    }
    let _ = fs::remove_dir_all(&scratch);
    0
}
