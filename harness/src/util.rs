//! Deterministic RNG, parallel case runner, verdict and evidence writers, watchdogs.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn word<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.below(xs.len())]
    }
    pub fn pick_char(&mut self, s: &str) -> char {
        let n = s.chars().count();
        s.chars().nth(self.below(n)).unwrap()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only_case: Option<(String, u64)>,
    pub start: Instant,
    pub out: Mutex<Findings>,
    pub stop: AtomicBool,
}

#[derive(Default)]
pub struct Findings {
    pub violations: Vec<(String, u64, String, String)>, // phase, case, signature, description
    pub infra: Vec<String>,
    pub evaluations: u64,
    pub abstained: u64,
    pub tags: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<Value>,
    pub extra: BTreeMap<String, Value>,
}

/// What one case reports.
pub enum Outcome {
    /// Held. (signature of the case, was it non-trivial)
    Held(u64, bool),
    /// The oracle declines to judge (with the reason).
    Abstain(&'static str),
    /// Violated. (stable signature of the kind of failure, description)
    Violated(String, String),
}

pub struct Case<'a> {
    pub rng: Rng,
    pub n: u64,
    pub tags: BTreeMap<String, u64>,
    pub sample: Option<Value>,
    pub ctx: &'a Ctx,
    pub verbose: bool,
}
impl Case<'_> {
    pub fn tag(&mut self, t: &str) {
        *self.tags.entry(t.to_string()).or_insert(0) += 1;
    }
    pub fn tagn(&mut self, t: &str, n: u64) {
        if n > 0 {
            *self.tags.entry(t.to_string()).or_insert(0) += n;
        }
    }
}

pub struct PanicInfo {
    pub msg: String,
    pub loc: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static EXPECTED: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { msg, loc }));
    }));
}

/// Runs `f`, turning a panic into Err.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or(PanicInfo {
                msg: "panic".into(),
                loc: "?".into(),
            })),
    }
}

thread_local! {
    static FAULTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// Faults seen by monitors that cannot return them (trait implementations).
pub fn note_fault(s: String) {
    FAULTS.with(|f| f.borrow_mut().push(s));
}
pub fn take_faults() -> Vec<String> {
    FAULTS.with(|f| std::mem::take(&mut *f.borrow_mut()))
}

extern "C" {
    fn pthread_self() -> u64;
    fn pthread_getcpuclockid(t: u64, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}
fn clock_s(clk: i32) -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        if clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}
pub fn my_cpu_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}

/// A case that uses this much CPU time without returning is reported as not terminating
/// (cases take milliseconds; a few take seconds, and several times that under a sanitizer).
fn hang_cpu_s() -> f64 {
    if std::env::var("SDS_NO_WATCH").is_ok() {
        300.0
    } else {
        100.0
    }
}

struct Slot {
    clk: i32,
    phase: String,
    case: u64,
    cpu0: f64,
    busy: bool,
}

pub struct PhaseOpts {
    pub cases: u64,
    pub threads: usize,
    /// stop starting new cases after this many seconds of this phase
    pub max_s: f64,
}

/// Percent of the workload (the sanitizer builds are slower and run a part of it).
fn share() -> u64 {
    std::env::var("SDS_SHARE").ok().and_then(|x| x.parse().ok()).unwrap_or(100)
}

impl Ctx {
    pub fn case_seed(&self, phase: &str, n: u64) -> u64 {
        mix(self.seed ^ hash_str(&format!("{}/{}", self.prop, phase)).wrapping_add(mix(n)))
    }

    /// Scales a quick case count for the tier.
    pub fn n(&self, quick: u64) -> u64 {
        let n = match self.tier {
            Tier::Quick => quick * 2,
            Tier::Thorough => quick * 30,
        };
        (n * share() / 100).max(1)
    }
    pub fn secs(&self, quick: f64) -> f64 {
        let s = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => quick * 15.0,
        };
        s * share() as f64 / 100.0
    }

    pub fn violation(&self, phase: &str, case: u64, sig: &str, desc: &str) {
        let known = read_known(&self.prop).contains(sig);
        let mut o = self.out.lock().unwrap();
        if o.violations.len() < 50 {
            o.violations
                .push((phase.into(), case, sig.into(), desc.into()));
        }
        if !known {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    pub fn infra(&self, msg: String) {
        self.out.lock().unwrap().infra.push(msg);
        self.stop.store(true, Ordering::SeqCst);
    }
    pub fn extra(&self, k: &str, v: Value) {
        self.out.lock().unwrap().extra.insert(k.into(), v);
    }

    /// Runs `f` for cases 0..opts.cases, in parallel.
    pub fn phase<F>(&self, phase: &str, opts: PhaseOpts, f: F)
    where
        F: Fn(&mut Case) -> Outcome + Sync,
    {
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        let (from, to, verbose) = match &self.only_case {
            Some((p, n)) => {
                if p != phase {
                    return;
                }
                (*n, *n + 1, true)
            }
            None => (0, opts.cases, false),
        };
        let threads = if verbose { 1 } else { opts.threads };
        let next = AtomicU64::new(from);
        let t0 = Instant::now();
        let slots: Vec<Mutex<Slot>> = (0..threads)
            .map(|_| {
                Mutex::new(Slot {
                    clk: 0,
                    phase: phase.to_string(),
                    case: 0,
                    cpu0: 0.0,
                    busy: false,
                })
            })
            .collect();
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            for slot in &slots {
                let (next, done, f) = (&next, &done, &f);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        let clk = my_cpu_clock();
                        let mut local = Findings::default();
                        loop {
                            if self.stop.load(Ordering::SeqCst)
                                || t0.elapsed().as_secs_f64() > opts.max_s
                            {
                                break;
                            }
                            let n = next.fetch_add(1, Ordering::SeqCst);
                            if n >= to {
                                break;
                            }
                            {
                                let mut sl = slot.lock().unwrap();
                                sl.clk = clk;
                                sl.case = n;
                                sl.cpu0 = clock_s(clk);
                                sl.busy = true;
                            }
                            let mut case = Case {
                                rng: Rng::new(self.case_seed(phase, n)),
                                n,
                                tags: BTreeMap::new(),
                                sample: None,
                                ctx: self,
                                verbose,
                            };
                            let t1 = Instant::now();
                            let r = guarded(|| f(&mut case));
                            if t1.elapsed().as_secs_f64() > 3.0 && std::env::var("SDS_TAGS").is_ok() {
                                eprintln!("slow case {phase} {n}: {:.1} s", t1.elapsed().as_secs_f64());
                            }
                            slot.lock().unwrap().busy = false;
                            local.evaluations += 1;
                            for (k, v) in case.tags {
                                *local.tags.entry(k).or_insert(0) += v;
                            }
                            match r {
                                Ok(Outcome::Held(sig, nontrivial)) => {
                                    if nontrivial {
                                        local.sigs.insert(sig);
                                        if local.samples.len() < 2 {
                                            if let Some(s) = case.sample {
                                                local.samples.push(s);
                                            }
                                        }
                                    }
                                }
                                Ok(Outcome::Abstain(why)) => {
                                    local.abstained += 1;
                                    *local.tags.entry(format!("abstain:{why}")).or_insert(0) += 1;
                                }
                                Ok(Outcome::Violated(sig, desc)) => {
                                    self.violation(phase, n, &sig, &desc)
                                }
                                Err(p) => {
                                    if p.loc.starts_with("src/") {
                                        self.infra(format!(
                                            "harness panic in {phase}#{n} at {}: {}",
                                            p.loc, p.msg
                                        ));
                                    } else {
                                        self.violation(
                                            phase,
                                            n,
                                            &format!("panic:{}", p.loc),
                                            &format!("panicked at {}: {}", p.loc, p.msg),
                                        );
                                    }
                                }
                            }
                        }
                        let mut o = self.out.lock().unwrap();
                        o.evaluations += local.evaluations;
                        o.abstained += local.abstained;
                        for (k, v) in local.tags {
                            *o.tags.entry(k).or_insert(0) += v;
                        }
                        o.sigs.extend(local.sigs);
                        if o.samples.len() < 6 {
                            o.samples.extend(local.samples);
                            o.samples.truncate(6);
                        }
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let limit = hang_cpu_s();
            let mut last_proc = (Instant::now(), clock_s(2));
            while (done.load(Ordering::SeqCst) as usize) < threads {
                std::thread::sleep(Duration::from_millis(2));
                let wall = last_proc.0.elapsed().as_secs_f64();
                let mut hung = None;
                for slot in &slots {
                    let sl = slot.lock().unwrap();
                    if sl.busy {
                        let used = clock_s(sl.clk) - sl.cpu0;
                        if used > limit {
                            hung = Some((sl.phase.clone(), sl.case, format!("used {used:.0} s of CPU time without returning")));
                        } else if wall > 60.0 && clock_s(2) - last_proc.1 < 0.5 {
                            hung = Some((sl.phase.clone(), sl.case, "no thread of the process made progress for 60 s (deadlock)".to_string()));
                        }
                    }
                }
                if wall > 61.0 {
                    last_proc = (Instant::now(), clock_s(2));
                }
                if let Some((p, n, d)) = hung {
                    self.violation(&p, n, "hang", &d);
                    std::process::exit(self.finish());
                }
            }
        });
        let cases = next.load(Ordering::SeqCst).min(to) - from;
        let secs = (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0;
        if std::env::var("SDS_TAGS").is_ok() {
            eprintln!("phase {phase}: {cases} of {} cases, {secs} s", to - from);
        }
        let mut o = self.out.lock().unwrap();
        let e = o.extra.entry("phases".into()).or_insert_with(|| json!({}));
        e[phase] = json!({"cases": cases, "seconds": secs});
    }

    /// Writes evidence and replays, prints the verdict, returns the exit code.
    pub fn finish(&self) -> i32 {
        let o = self.out.lock().unwrap();
        let known = read_known(&self.prop);
        let mut fresh = vec![];
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        for v in &o.violations {
            if known.contains(&v.2) {
                *known_hits.entry(v.2.clone()).or_insert(0) += 1;
            } else {
                fresh.push(v);
            }
        }
        let rule = crate::props::rule_of(&self.prop);
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(o.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(o.sigs.len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(o.samples));
        cov.insert("abstained".into(), json!(o.abstained));
        cov.insert("observed".into(), json!(o.tags));
        for (k, v) in &o.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        if self.only_case.is_none() {
            let _ = std::fs::create_dir_all("/verif/evidence");
            let path = std::env::var("SDS_EVIDENCE").unwrap_or(format!("/verif/evidence/{}.json", self.prop));
            std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        for k in known_hits.keys() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} abstained, {:.1} s",
            self.prop,
            o.evaluations,
            o.sigs.len(),
            o.abstained,
            self.start.elapsed().as_secs_f64()
        );
        if self.only_case.is_some() || std::env::var("SDS_TAGS").is_ok() {
            for (k, v) in &o.tags {
                println!("  {k}: {v}");
            }
        }
        if !fresh.is_empty() {
            let _ = std::fs::create_dir_all("/verif/replays");
            for v in fresh.iter().take(3) {
                let path = format!(
                    "/verif/replays/{}{}-{}-{}-s{}.json",
                    self.prop,
                    std::env::var("SDS_REPLAY_SUFFIX").unwrap_or_default(),
                    v.0.replace(|c: char| !c.is_ascii_alphanumeric(), "-"),
                    v.1,
                    self.seed
                );
                let body = json!({
                    "property": self.prop, "phase": v.0, "case": v.1, "seed": self.seed,
                    "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
                    "signature": v.2, "description": v.3,
                    "how_to_replay": format!("bash /verif/run.sh --replay {path}"),
                });
                if self.only_case.is_none() {
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                }
                println!("--- {} case {}#{} [{}]\n{}", self.prop, v.0, v.1, v.2, v.3);
                println!("VIOLATION property={} replay={}", self.prop, path);
            }
            let _ = std::io::stdout().flush();
            return 1;
        }
        for m in &o.infra {
            println!("ERROR {m}");
        }
        if !o.infra.is_empty() {
            return 2;
        }
        if o.sigs.is_empty() && self.only_case.is_none() && known_hits.is_empty() {
            println!("ERROR nothing was observed");
            return 2;
        }
        0
    }
}

pub fn read_known(prop: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    if let Ok(s) = std::fs::read_to_string("/verif/known_findings.txt") {
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix("known: ") {
                if let Some(rest) = rest.strip_prefix(&format!("property={prop} signature=")) {
                    out.insert(rest.split(" :: ").next().unwrap().trim().to_string());
                }
            }
        }
    }
    out
}
