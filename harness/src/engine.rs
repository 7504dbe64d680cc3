//! Runs a property over generated cases, shrinks what fails, writes evidence and replay files.

use crate::props;
use crate::tape::{hash64, raw_tape, shrink, Src};
use crate::HarnessBug;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a case was, for the evidence.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub text: String,
}

impl Obs {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn case(&mut self, c: &crate::lex::Case) {
        for k in c.labels.keys() {
            self.label(k);
        }
        self.nontrivial = crate::tok::count(&c.toks) >= 8;
        self.text = c.text.clone();
    }
}

pub type CaseFn = fn(&mut Src, &mut Obs) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub enum Outcome {
    Pass(Obs),
    Fail(String, Obs),
    Bug(String),
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> Result<String, String> {
    if let Some(b) = p.downcast_ref::<HarnessBug>() {
        return Err(b.0.clone());
    }
    let msg = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    if msg.starts_with("harness:") || msg.contains("harness: ") {
        return Err(msg);
    }
    Ok(msg)
}

pub fn run_case(f: CaseFn, src: &mut Src) -> Outcome {
    let mut obs = Obs::default();
    let r = catch_unwind(AssertUnwindSafe(|| f(src, &mut obs)));
    proc_macro2::extra::invalidate_current_thread_spans();
    match r {
        Ok(Ok(())) => Outcome::Pass(obs),
        Ok(Err(m)) => Outcome::Fail(m, obs),
        Err(p) => {
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            match panic_text(p) {
                // a panic raised in the harness' own files is an error of the harness
                Ok(m) if loc.starts_with("src/") => Outcome::Bug(format!("{m} at {loc}")),
                Ok(m) => Outcome::Fail(format!("unexpected panic: {m} (at {loc})"), obs),
                Err(m) => Outcome::Bug(m),
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
struct Args {
    prop: String,
    seed: u64,
    tier: String,
    verif: String,
    cases: Option<u64>,
    threads: Option<u64>,
    replay: Option<String>,
    gen: Option<u64>,
    survey: Option<u64>,
    /// Run the cases in this process; progress goes to this file.
    child: Option<String>,
}

fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        verif: "/verif".into(),
        cases: None,
        threads: None,
        replay: None,
        gen: None,
        survey: None,
        child: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--prop" => a.prop = it.next().unwrap(),
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--tier" => a.tier = it.next().unwrap(),
            "--verif" => a.verif = it.next().unwrap(),
            "--cases" => a.cases = Some(it.next().unwrap().parse().unwrap()),
            "--threads" => a.threads = Some(it.next().unwrap().parse().unwrap()),
            "--replay" => a.replay = Some(it.next().unwrap()),
            "--gen" => a.gen = Some(it.next().unwrap().parse().unwrap()),
            "--survey" => a.survey = Some(it.next().unwrap().parse().unwrap()),
            "--child" => a.child = Some(it.next().unwrap()),
            other => panic!("unknown argument {other}"),
        }
    }
    if a.tier != "thorough" {
        a.tier = "quick".into();
    }
    a
}

pub fn main() -> i32 {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
    if std::env::args().nth(1).as_deref() == Some("--history-child") {
        return props::history::child();
    }
    let a = args();
    if let Some(n) = a.gen {
        return props::print_generated(a.seed, n);
    }
    let prop = match props::all().into_iter().find(|p| p.id == a.prop) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", a.prop);
            return 2;
        }
    };
    if let Some(n) = a.survey {
        return in_big_stack(|| survey(&prop, a.seed, n));
    }
    if let Some(file) = &a.replay {
        return replay(prop.id, prop.run, file);
    }
    match &a.child {
        Some(f) => run(&prop, &a, f),
        None => supervise(&prop, &a),
    }
}

fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    let base = hash64(format!("{id}:{seed}").as_bytes());
    hash64(&[base.to_le_bytes(), i.to_le_bytes()].concat())
}

fn in_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

const STACK: usize = 256 << 20;

/// Replay a tape (`tape: ..`) or a case by its seed (`caseseed: ..`).
fn replay(id: &'static str, run: CaseFn, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let find = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|s| s.to_string()));
    let out = in_big_stack(|| {
        let mut src = match find("caseseed: ") {
            Some(x) => Src::random(x.trim().parse().unwrap()),
            None => {
                let tape: Vec<u32> = find("tape: ")
                    .unwrap_or_default()
                    .split_whitespace()
                    .map(|x| x.parse().unwrap())
                    .collect();
                Src::replay(&tape)
            }
        };
        run_case(run, &mut src)
    });
    match out {
        Outcome::Pass(o) => {
            println!("replay passes\n{}", o.text);
            0
        }
        Outcome::Fail(m, o) => {
            println!("{m}\n--- case:\n{}", o.text);
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Outcome::Bug(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

/// For development: all kinds of failures, each with its shortest case.
fn survey(prop: &Prop, seed: u64, n: u64) -> i32 {
    let mut kinds: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for i in 0..n {
        let mut src = Src::random(case_seed(prop.id, seed, i));
        let (m, text) = match run_case(prop.run, &mut src) {
            Outcome::Pass(_) => continue,
            Outcome::Fail(m, o) => (m, o.text),
            Outcome::Bug(m) => (format!("harness: {}", m.split(':').next().unwrap_or("")), m.clone()),
        };
        let m = m.lines().next().unwrap_or("").to_string();
        let e = kinds.entry(m).or_insert((0, text.clone()));
        e.0 += 1;
        if text.len() < e.1.len() {
            e.1 = text;
        }
    }
    for (m, (n, t)) in &kinds {
        println!("{n} x {m}\n    {}", t.replace('\n', " "));
    }
    0
}

/// Start the cases in a process of their own, so that a crash of the code under test is seen.
fn supervise(prop: &Prop, a: &Args) -> i32 {
    let start = Instant::now();
    let dir = format!("{}/replays", a.verif);
    let _ = std::fs::create_dir_all(&dir);
    let progress = format!("{dir}/.progress-{}-{}", prop.id, std::process::id());
    let exe = std::env::current_exe().expect("current_exe");
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(["--prop", prop.id, "--seed", &a.seed.to_string(), "--tier", &a.tier])
        .args(["--verif", &a.verif, "--child", &progress]);
    if let Some(c) = a.cases {
        cmd.args(["--cases", &c.to_string()]);
    }
    if let Some(t) = a.threads {
        cmd.args(["--threads", &t.to_string()]);
    }
    let status = cmd.status().expect("child process");
    let cleanup = || {
        let _ = std::fs::remove_file(&progress);
        let _ = std::fs::remove_file(format!("{progress}.pending"));
        let _ = std::fs::remove_file(format!("{progress}.tape"));
    };
    let Some(sig) = status.signal() else {
        cleanup();
        return status.code().unwrap_or(2);
    };
    if sig == 9 || sig == 15 {
        // ended from outside
        cleanup();
        eprintln!("the check was ended by signal {sig}: no answer");
        return 3;
    }
    // a failing case was known, and shrinking it crashed
    if let Ok(path) = std::fs::read_to_string(format!("{progress}.pending")) {
        cleanup();
        evidence(prop, a, &Counts::default(), 1, start);
        println!("VIOLATION property={} replay={}", prop.id, path.trim());
        return 1;
    }
    // which case was it?
    let bytes = std::fs::read(&progress).unwrap_or_default();
    let mut running: Vec<u64> = bytes
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|x| *x > 0)
        .map(|x| x - 1)
        .collect();
    running.sort();
    let crashes = |body: &str| -> bool {
        let f = format!("{progress}.tape");
        std::fs::write(&f, body).expect("tape file");
        let mut c = std::process::Command::new(&exe);
        c.args(["--prop", prop.id, "--replay", &f])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null());
        matches!(c.status(), Ok(s) if s.signal().is_some())
    };
    let tape_line = |t: &[u32]| {
        let t: Vec<String> = t.iter().map(|x| x.to_string()).collect();
        format!("tape: {}\n", t.join(" "))
    };
    for i in running {
        let seed = case_seed(prop.id, a.seed, i);
        if !crashes(&format!("caseseed: {seed}\n")) {
            continue;
        }
        let deadline = Instant::now() + shrink_time();
        let small = shrink(raw_tape(seed), 3000, |t| {
            if Instant::now() < deadline && crashes(&tape_line(t)) {
                Some(t.to_vec())
            } else {
                None
            }
        });
        let path = write_replay(
            a,
            prop.id,
            &small,
            &format!("the process is ended by signal {sig} (stack overflow or abort)"),
            "run the replay to see it",
            i,
        );
        cleanup();
        evidence(prop, a, &Counts::default(), 1, start);
        println!("case {i}: the process is ended by signal {sig}");
        println!("VIOLATION property={} replay={}", prop.id, path);
        return 1;
    }
    cleanup();
    eprintln!("the check was ended by signal {sig}, and no case that was running does it: no answer");
    3
}

#[derive(Default)]
struct Counts {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
}

#[derive(Default)]
struct Shared {
    counts: Counts,
    fail: Option<(u64, Vec<u32>, String)>,
    bug: Option<String>,
}

/// Resident memory in MB.
fn rss() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 / (1 << 20)
}

/// How long to shrink a failing case: 60 s, or `VPBT_SHRINK_S` (for campaigns with many mutants).
fn shrink_time() -> Duration {
    let s = std::env::var("VPBT_SHRINK_S").ok().and_then(|s| s.parse().ok());
    Duration::from_secs(s.unwrap_or(60))
}

const HANG_MS: u64 = 60_000;
const RSS_MB: u64 = 8_000;

fn run(prop: &Prop, a: &Args, progress: &str) -> i32 {
    let start = Instant::now();
    let cases = a.cases.unwrap_or(if a.tier == "thorough" {
        prop.thorough
    } else {
        prop.quick
    });
    let threads = a
        .threads
        .unwrap_or(std::thread::available_parallelism().map_or(8, |n| n.get()).min(16) as u64);

    let findings = std::fs::read_to_string(format!("{}/known_findings.txt", a.verif)).unwrap_or_default();
    let known_lines = match props::findings(prop.id, &findings) {
        Ok(l) => l,
        Err(m) => {
            eprintln!("harness error: {m}");
            return 2;
        }
    };

    let file = Arc::new(std::fs::File::create(progress).expect("progress file"));
    let shared = Arc::new(Mutex::new(Shared::default()));
    let min_fail = Arc::new(AtomicU64::new(u64::MAX));
    let beat: Arc<Vec<[AtomicU64; 2]>> =
        Arc::new((0..threads).map(|_| [AtomicU64::new(0), AtomicU64::new(0)]).collect());
    let t0 = Instant::now();

    let mut handles = Vec::new();
    for t in 0..threads {
        let (shared, min_fail, beat, file) = (shared.clone(), min_fail.clone(), beat.clone(), file.clone());
        let (run, id, seed) = (prop.run, prop.id, a.seed);
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut c = Counts::default();
                let mut i = t;
                while i < cases && i < min_fail.load(Ordering::Relaxed) {
                    beat[t as usize][1].store(i, Ordering::Relaxed);
                    beat[t as usize][0].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    let _ = file.write_at(&(i + 1).to_le_bytes(), t * 8);
                    let mut src = Src::random(case_seed(id, seed, i));
                    c.evals += 1;
                    match run_case(run, &mut src) {
                        Outcome::Pass(o) => {
                            for (k, v) in o.labels {
                                *c.labels.entry(k).or_insert(0) += v;
                            }
                            if o.nontrivial {
                                c.nontrivial.insert(hash64(o.text.as_bytes()));
                                if c.samples.len() < 3 && o.text.len() < 400 {
                                    c.samples.push((i, o.text));
                                }
                            }
                        }
                        Outcome::Fail(m, _) => {
                            min_fail.fetch_min(i, Ordering::Relaxed);
                            let mut s = shared.lock().unwrap();
                            if s.fail.as_ref().map_or(true, |f| i < f.0) {
                                s.fail = Some((i, src.tape.clone(), m));
                            }
                            break;
                        }
                        Outcome::Bug(m) => {
                            min_fail.fetch_min(i, Ordering::Relaxed);
                            shared.lock().unwrap().bug = Some(format!("case {i}: {m}"));
                            break;
                        }
                    }
                    i += threads;
                }
                beat[t as usize][0].store(0, Ordering::Relaxed);
                let _ = file.write_at(&0u64.to_le_bytes(), t * 8);
                let mut s = shared.lock().unwrap();
                s.counts.evals += c.evals;
                s.counts.nontrivial.extend(c.nontrivial);
                for (k, v) in c.labels {
                    *s.counts.labels.entry(k).or_insert(0) += v;
                }
                s.counts.samples.extend(c.samples);
            })
            .unwrap();
        handles.push(h);
    }
    // a case that doesn't end, or that takes all memory, is a failure: cases take milliseconds
    let mut stuck: Option<(u64, String)> = None;
    while !handles.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        let oldest = beat
            .iter()
            .map(|b| (b[0].load(Ordering::Relaxed), b[1].load(Ordering::Relaxed)))
            .filter(|b| b.0 != 0)
            .min();
        let Some((since, i)) = oldest else { continue };
        let ms = now.saturating_sub(since);
        if ms > HANG_MS {
            stuck = Some((i, format!("case {i} doesn't end (it has run for {} s)", ms / 1000)));
            break;
        }
        let mb = rss();
        if mb > RSS_MB && ms > 500 {
            stuck = Some((i, format!("case {i} doesn't end and takes more and more memory ({mb} MB)")));
            break;
        }
    }

    let s = {
        let mut g = shared.lock().unwrap();
        std::mem::take(&mut *g)
    };
    let mut violation: Option<(String, String)> = None; // message, replay path
    if let Some((i, tape, msg)) = s.fail {
        let path = write_replay(a, prop.id, &tape, &msg, "", i);
        let _ = std::fs::write(format!("{progress}.pending"), &path);
        violation = Some((msg, path));
        // shrink to the smallest failing tape; a shrunk case that hangs must not stop us
        let best: Arc<Mutex<Option<(Vec<u32>, String, String)>>> = Arc::new(Mutex::new(None));
        let done = Arc::new(AtomicU64::new(0));
        let deadline = Instant::now() + shrink_time();
        let (run, b, dn) = (prop.run, best.clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut size = usize::MAX;
                let _ = shrink(tape, 20_000, |t| {
                    if Instant::now() > deadline {
                        return None;
                    }
                    let mut src = Src::replay(t);
                    match run_case(run, &mut src) {
                        Outcome::Fail(m, o) => {
                            let len = src.tape.len();
                            if len <= size {
                                size = len;
                                *b.lock().unwrap() = Some((src.tape.clone(), m, o.text));
                            }
                            Some(src.tape)
                        }
                        _ => None,
                    }
                });
                dn.store(1, Ordering::Relaxed);
            })
            .unwrap();
        while done.load(Ordering::Relaxed) == 0 && Instant::now() < deadline + Duration::from_secs(5) {
            std::thread::sleep(Duration::from_millis(5));
        }
        let best = best.lock().unwrap().take();
        if let Some((tape, m, text)) = best {
            let path = write_replay(a, prop.id, &tape, &m, &text, i);
            violation = Some((format!("{m}\n--- case:\n{text}"), path));
        }
        let _ = std::fs::remove_file(format!("{progress}.pending"));
    } else if let Some((i, msg)) = stuck {
        let path = write_replay_seed(a, prop.id, case_seed(prop.id, a.seed, i), &msg, i);
        violation = Some((msg, path));
    } else if let Some(b) = s.bug {
        eprintln!("harness error: {b}");
        return 2;
    }

    if !evidence(prop, a, &s.counts, violation.is_some() as u32, start) {
        return 2;
    }
    for l in &known_lines {
        println!("{l}");
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        prop.id,
        s.counts.evals,
        s.counts.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    match violation {
        None => 0,
        Some((m, path)) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
    }
}

fn evidence(prop: &Prop, a: &Args, c: &Counts, violations: u32, start: Instant) -> bool {
    let mut samples = c.samples.clone();
    samples.sort();
    samples.truncate(6);
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n", esc(prop.id)));
    j.push_str(&format!(" \"tier\": {},\n \"seed\": {},\n", esc(&a.tier), a.seed));
    j.push_str(" \"level\": \"exploration\",\n \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {},\n", c.evals));
    j.push_str(&format!("  \"distinct_nontrivial\": {},\n", c.nontrivial.len()));
    j.push_str(&format!("  \"rule\": {},\n", esc(prop.rule)));
    j.push_str("  \"classes\": {");
    let l: Vec<String> = c.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    j.push_str(&l.join(", "));
    j.push_str("},\n  \"samples\": [");
    let l: Vec<String> = samples.iter().map(|(_, t)| esc(t)).collect();
    j.push_str(&l.join(", "));
    j.push_str("]\n },\n");
    j.push_str(" \"assumptions\": [\"tokens come from proc_macro2's own lexer (its fallback outside of a compiler), with span locations\", \"generated syntax is limited to what DESIGN.md lists as supported\"],\n");
    j.push_str(&format!(" \"wall_s\": {:.2},\n", start.elapsed().as_secs_f64()));
    j.push_str(&format!(" \"violations\": {violations}\n}}\n"));
    let dir = format!("{}/evidence", a.verif);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", prop.id), j) {
        eprintln!("cannot write evidence: {e}");
        return false;
    }
    true
}

fn replay_path(a: &Args, id: &str, i: u64) -> String {
    let dir = format!("{}/replays", a.verif);
    let _ = std::fs::create_dir_all(&dir);
    format!("{dir}/{id}-seed{}-case{i}.txt", a.seed)
}

fn write_replay(a: &Args, id: &str, tape: &[u32], msg: &str, text: &str, i: u64) -> String {
    let path = replay_path(a, id, i);
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let body = format!(
        "property: {id}\ntape: {}\nreplay with: ./check.sh {id} --replay {path}\n\n{msg}\n\n--- case:\n{text}\n",
        t.join(" "),
    );
    let _ = std::fs::write(&path, body);
    path
}

fn write_replay_seed(a: &Args, id: &str, seed: u64, msg: &str, i: u64) -> String {
    let path = replay_path(a, id, i);
    let body = format!("property: {id}\ncaseseed: {seed}\nreplay with: ./check.sh {id} --replay {path}\n\n{msg}\n");
    let _ = std::fs::write(&path, body);
    path
}
