//! Case loops, recording of what was observed, violations and replays, evidence.
use crate::rng::{fnv, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Rec {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// what the current case is about, for the report of a violation
    pub what: String,
}

impl Rec {
    /// Counts one evaluation; `key` identifies the case, `nontrivial` says whether it counts as such.
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.insert(fnv(key.as_bytes())) && (self.samples.len() < 2 || (self.samples.len() < 6 && self.evals % 97 == 0)) {
            let mut s: String = key.chars().take(300).collect();
            if s.len() < key.len() { s.push('…') }
            self.samples.push(s);
        }
    }
    pub fn count(&mut self, name: &str) { self.add(name, 1) }
    pub fn add(&mut self, name: &str, n: u64) { *self.counters.entry(name.to_string()).or_insert(0) += n }
    pub fn max(&mut self, name: &str, n: u64) { let e = self.counters.entry(name.to_string()).or_insert(0); *e = (*e).max(n) }
    fn merge(&mut self, o: Rec) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters { if k.starts_with("max_") { self.max(&k, v) } else { self.add(&k, v) } }
        if self.samples.len() < 24 { self.samples.extend(o.samples) }
    }
}

#[derive(Clone, Debug)]
pub struct Failure { pub section: String, pub idx: u64, pub message: String, pub known: Option<String> }

#[derive(Clone)]
pub struct Opts {
    pub prop: String, pub thorough: bool, pub seed: u64, pub out: Option<PathBuf>, pub dir: PathBuf, pub threads: usize, pub max_secs: u64,
    /// run only this case
    pub only: Option<(String, u64)>,
}

pub struct Run {
    pub o: Opts,
    pub rec: Mutex<Rec>,
    pub failures: Mutex<Vec<Failure>>,
    pub harness_errors: Mutex<Vec<String>>,
    pub sections: Mutex<Vec<(String, u64)>>,
    pub rule: Mutex<String>,
    start: Instant,
    stopped: AtomicBool,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} (at {})", m, at));
    }));
}

pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub type Res = Result<(), String>;

/// Leaves a note of the case that is about to run, in case the process dies in it.
fn note(f: &mut Option<std::fs::File>, path: &Path, name: &str, idx: u64) -> std::io::Result<()> {
    use std::os::unix::fs::FileExt;
    if f.is_none() { *f = Some(std::fs::File::create(path)?) }
    f.as_ref().unwrap().write_all_at(format!("{:<48}\t{:020}\n", name, idx).as_bytes(), 0)
}

fn tid() -> usize {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok()))).unwrap_or(0)
}

/// Hundredths of a second that a thread has been computing.
fn cpu(tid: usize) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let mut f = s[s.rfind(')')? + 2..].split(' ').skip(11);
    Some(f.next()?.parse::<u64>().ok()? + f.next()?.parse::<u64>().ok()?)
}

impl Run {
    pub fn new(o: Opts) -> Self {
        Run { o, rec: Default::default(), failures: Default::default(), harness_errors: Default::default(), sections: Default::default(), rule: Default::default(), start: Instant::now(), stopped: AtomicBool::new(false) }
    }

    pub fn thorough(&self) -> bool { self.o.thorough }

    /// `quick` cases in the quick tier, `quick * factor` and some in the thorough one.
    pub fn n(&self, quick: u64, factor: u64) -> u64 { if self.o.thorough { quick * factor * 4 } else { quick * (factor * 3 / 2).max(1) } }

    /// Sizes for both tiers.
    pub fn sizes(&self, quick: &[usize], more: &[usize]) -> Vec<usize> {
        let mut v = quick.to_vec();
        if self.o.thorough { v.extend(more) }
        v.sort_unstable();
        v.dedup();
        v
    }

    pub fn rule(&self, s: &str) { *self.rule.lock().unwrap() = s.to_string() }

    pub fn failed(&self) -> bool { self.failures.lock().unwrap().len() >= 5 }

    fn fail(&self, section: &str, idx: u64, message: String) {
        self.failures.lock().unwrap().push(Failure { section: section.into(), idx, message, known: None });
    }

    pub fn section<F>(&self, name: &str, n: u64, f: F)
    where F: Fn(&mut Rng, &mut Rec, u64) -> Res + Sync {
        self.section_with(name, n, 64 << 20, self.o.threads, f)
    }

    pub fn section_with<F>(&self, name: &str, n: u64, stack: usize, threads: usize, f: F)
    where F: Fn(&mut Rng, &mut Rec, u64) -> Res + Sync {
        let only = match &self.o.only { Some((s, i)) if s == name => Some(*i), Some(_) => return, None => None };
        if self.failed() { return }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let deadline = Duration::from_secs(self.o.max_secs);
        let label = format!("{}/{}", self.o.prop, name);
        let threads = if only.is_some() { 1 } else { threads.min(n.max(1) as usize) };
        let slots: Vec<(Mutex<Option<(u64, Instant)>>, AtomicUsize)> = (0..threads).map(|_| (Mutex::new(None), AtomicUsize::new(0))).collect();
        let finished = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, done, label, slots, f, finished) = (&next, &done, &label, &slots, &f, &finished);
                let body = move || {
                    let mut rec = Rec::default();
                    let progress = self.o.dir.join(format!("progress.{}", t));
                    let mut pf = None;
                    slots[t].1.store(tid(), Ordering::Relaxed);
                    loop {
                        let idx = match only { Some(i) => if next.fetch_add(1, Ordering::Relaxed) == 0 { i } else { break }, None => next.fetch_add(1, Ordering::Relaxed) };
                        if only.is_none() && (idx >= n || self.start.elapsed() > deadline || self.failed()) {
                            if idx < n && self.start.elapsed() > deadline { self.stopped.store(true, Ordering::Relaxed) }
                            break;
                        }
                        if only.is_none() { let _ = note(&mut pf, &progress, name, idx); }
                        *slots[t].0.lock().unwrap() = Some((idx, Instant::now()));
                        let mut rng = Rng::of(self.o.seed, label, idx);
                        rec.what.clear();
                        parsel::proc_macro2::extra::invalidate_current_thread_spans();
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut rec, idx)));
                        *slots[t].0.lock().unwrap() = None;
                        done.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(m)) => self.fail(name, idx, m),
                            Err(_) => {
                                let m = last_panic();
                                if m.starts_with("harness:") { self.harness_errors.lock().unwrap().push(format!("{}#{}: {} [{}]", name, idx, m, rec.what)) }
                                else { self.fail(name, idx, format!("panicked: {} [{}]", m, rec.what)) }
                            }
                        }
                    }
                    let _ = std::fs::remove_file(&progress);
                    finished.fetch_add(1, Ordering::SeqCst);
                    self.rec.lock().unwrap().merge(rec);
                };
                std::thread::Builder::new().stack_size(stack).spawn_scoped(sc, body).expect("harness: spawn");
            }
            // Watchdog. Every case is small, so one that keeps its thread computing for this long
            // (by the processor's clock, so a busy machine does not matter) does not terminate. One
            // that merely takes long by the wall clock decides nothing.
            let limit: u64 = std::env::var("PMON_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
            let mut since: Vec<Option<(u64, u64)>> = vec![None; threads];
            while finished.load(Ordering::SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(5));
                for (k, s) in slots.iter().enumerate() {
                    let cur = *s.0.lock().unwrap();
                    let Some((idx, started)) = cur else { since[k] = None; continue };
                    if started.elapsed() < Duration::from_secs(2) { continue }
                    let Some(used) = cpu(s.1.load(Ordering::Relaxed)) else { continue };
                    match since[k] { Some((i, _)) if i == idx => {} _ => since[k] = Some((idx, used)) }
                    if used - since[k].unwrap().1 > limit * 100 {
                        self.fail(name, idx, format!("did not terminate within {} s of computation", limit));
                        self.finish_and_exit();
                    }
                    if started.elapsed() > Duration::from_secs(20 * limit) {
                        self.harness_errors.lock().unwrap().push(format!("{}#{}: no end within {} s", name, idx, 20 * limit));
                        self.finish_and_exit();
                    }
                }
            }
        });
        self.sections.lock().unwrap().push((name.to_string(), done.load(Ordering::Relaxed)));
    }

    fn finish_and_exit(&self) -> ! {
        let code = self.finish();
        std::process::exit(code)
    }

    /// Writes replays and evidence, prints violations, returns the exit code.
    pub fn finish(&self) -> i32 {
        let rec = self.rec.try_lock();
        let empty = Rec::default();
        let rec: &Rec = match &rec { Ok(r) => r, Err(_) => &empty };
        let fails = self.failures.lock().unwrap().clone();
        let harness = self.harness_errors.lock().unwrap().clone();
        let p = &self.o.prop;
        for (i, f) in fails.iter().enumerate() {
            let path = if self.o.only.is_some() { PathBuf::from("(this replay)") } else {
                let path = self.o.dir.join(format!("{}-{}.json", p, i));
                let _ = std::fs::write(&path, format!("{{\"property\": {}, \"seed\": {}, \"tier\": {}, \"section\": {}, \"idx\": {}, \"message\": {}}}\n", js(p), self.o.seed, js(if self.o.thorough { "thorough" } else { "quick" }), js(&f.section), f.idx, js(&f.message)));
                path
            };
            println!("VIOLATION property={} replay={}", p, path.display());
            println!("  section {} case {}: {}", f.section, f.idx, f.message.chars().take(2000).collect::<String>());
        }
        for h in harness.iter().take(5) { println!("HARNESS-ERROR {}", h) }
        if let Some(out) = &self.o.out { let _ = std::fs::write(out, self.evidence(rec, fails.len())); }
        let evals = rec.evals;
        println!("{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s{}", p, evals, rec.distinct.len(), fails.len(), self.start.elapsed().as_secs_f64(), if self.stopped.load(Ordering::Relaxed) { " (time limit reached)" } else { "" });
        if !fails.is_empty() { 1 } else if !harness.is_empty() { 3 } else if evals == 0 && self.o.only.is_none() { println!("HARNESS-ERROR nothing was evaluated"); 3 } else { 0 }
    }

    fn evidence(&self, rec: &Rec, violations: usize) -> String {
        let mut s = String::new();
        s.push_str(&format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{", js(&self.o.prop), js(if self.o.thorough { "thorough" } else { "quick" }), self.o.seed, js(if self.o.prop == "C16" { "fault_enumeration" } else { "exploration" })));
        s.push_str(&format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, ", rec.evals, rec.distinct.len(), js(&self.rule.lock().unwrap())));
        let samples: Vec<String> = rec.samples.iter().take(12).map(|x| js(x)).collect();
        s.push_str(&format!("\"samples\": [{}], ", samples.join(", ")));
        let secs: Vec<String> = self.sections.lock().unwrap().iter().map(|(n, c)| format!("{}: {}", js(n), c)).collect();
        s.push_str(&format!("\"cases_per_section\": {{{}}}, ", secs.join(", ")));
        let cs: Vec<String> = rec.counters.iter().map(|(n, c)| format!("{}: {}", js(n), c)).collect();
        s.push_str(&format!("\"observed\": {{{}}}}}, ", cs.join(", ")));
        s.push_str(&format!("\"assumptions\": [{}], ", ASSUME.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")));
        s.push_str(&format!("\"wall_s\": {:.3}, \"violations\": {}}}\n", self.start.elapsed().as_secs_f64(), violations));
        s
    }
}

const ASSUME: &[&str] = &["the lexer (proc_macro2) and rustc are trusted", "the reference models in /verif/harness/pmon are the specification"];

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (0x80..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Reads a string or number field of one of our own replay files.
pub fn field(json: &str, name: &str) -> Option<String> {
    let k = format!("\"{}\": ", name);
    let rest = &json[json.find(&k)? + k.len()..];
    if let Some(r) = rest.strip_prefix('"') { Some(r[..r.find('"')?].to_string()) } else { Some(rest[..rest.find([',', '}'])?].trim().to_string()) }
}

pub fn dir_ok(p: &Path) -> bool { std::fs::create_dir_all(p).is_ok() }
