//! Properties about histories and schedules: concurrency (P14), history independence (P15),
//! metrics (P16), the contract of plug-in rules (P23).
use super::scan::opts;
use crate::events::{gen_path, gen_tree, Utf16Encoding, Val};
use crate::gen::*;
use crate::model::{self, Act, Features, MKw, MRule, MScope, ScanOut};
use crate::plugin::{Call, ScriptCfg};
use crate::rec::{mkey, Rec};
use crate::rx::{build, Node};
use crate::util::*;
use dd_sds::{Labels, MatchAction, PartialRedactDirection, ProximityKeywordsConfig, RegexRuleConfig, RuleConfig, Scanner, SharedPool, Utf8Encoding};
use serde_json::json;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex, RwLock};
use std::time::{Duration, Instant};

fn knobs() -> Knobs {
    Knobs {
        rules: (1, 5),
        inc: 25,
        exc: 25,
        validator: 8,
        scope: 25,
        blocked: 5,
        depth: 3,
        strings: (1, 5),
        path_keywords: 30,
        implicit: 20,
        no_multipass: 30,
        repeat: 15,
        simple: 70,
        ..Knobs::default()
    }
}

/// A world on which the reference has an opinion.
fn judged_world(rng: &mut Rng, k: &Knobs) -> (World, ScanOut) {
    loop {
        let w = gen_world(rng, k);
        if let Ok(o) = model::scan(&w.rules, w.feats, &w.val.strings(), &w.blocked) {
            return (w, o);
        }
    }
}

type Digest = (String, Val);
fn digest(o: &Observed) -> Digest {
    (show_matches(&o.matches), o.val.clone())
}

/// Compares an observed scan with the reference; None if it agrees or is excused.
fn judge(w: &World, o: &ScanOut, obs: &Observed) -> Option<(String, String)> {
    match diff(&w.rules, &w.val, o, model::Unit::Utf8, obs) {
        Some(d) if !engine_defect::<Utf8Encoding>(w, o) => Some(d),
        _ => None,
    }
}

fn with_plugin(rules: &[MRule], p: ScriptCfg, f: Features) -> Result<Scanner, dd_sds::CreateScannerError> {
    let mut cfg: Vec<Arc<dyn RuleConfig>> = rules
        .iter()
        .map(|r| Arc::new(r.to_config()) as Arc<dyn RuleConfig>)
        .collect();
    cfg.push(Arc::new(p));
    build_from(&cfg, f)
}

thread_local! {
    static PANIC_AT: Cell<i64> = const { Cell::new(-1) };
}

/// Watches what runs inside scans.
struct Inside {
    used: Mutex<HashSet<usize>>,
    seen: Mutex<HashSet<usize>>,
    active: AtomicUsize,
    max: AtomicUsize,
    faults: Mutex<Vec<(String, String)>>,
    order: Mutex<Vec<u16>>,
    seed: u64,
    n: AtomicU64,
    delays: bool,
}
impl Inside {
    fn new(seed: u64, delays: bool) -> Arc<Self> {
        Arc::new(Inside {
            used: Default::default(),
            seen: Default::default(),
            active: AtomicUsize::new(0),
            max: AtomicUsize::new(0),
            faults: Default::default(),
            order: Default::default(),
            seed,
            n: AtomicU64::new(0),
            delays,
        })
    }
    fn fault(&self, sig: &str, d: String) {
        self.faults.lock().unwrap().push((sig.into(), d));
    }
    fn event(&self, thread: usize, what: u16) {
        let mut o = self.order.lock().unwrap();
        if o.len() < 20_000 {
            o.push(thread as u16 * 8 + what);
        }
    }
    fn plugin(self: &Arc<Self>) -> ScriptCfg {
        let me = self.clone();
        let mut p = ScriptCfg::ranges(Act::None, vec![]);
        p.hook = Some(Arc::new(move |_c, addr| me.hook(addr)));
        p
    }
    fn hook(&self, addr: usize) {
        let fresh = self.used.lock().unwrap().insert(addr);
        if !fresh {
            self.fault("shared caches", format!("two scans use the regex caches at {addr:#x} at the same time"));
        }
        self.seen.lock().unwrap().insert(addr);
        let a = self.active.fetch_add(1, SeqCst) + 1;
        self.max.fetch_max(a, SeqCst);
        if self.delays {
            let h = mix(self.seed ^ self.n.fetch_add(1, SeqCst));
            match h % 8 {
                0 => std::thread::sleep(Duration::from_micros(h >> 8 & 255)),
                1 | 2 => std::thread::yield_now(),
                3 => {
                    for _ in 0..(h >> 8 & 1023) {
                        std::hint::spin_loop();
                    }
                }
                4 => {
                    // wait (shortly) for another scan to get here
                    let t = Instant::now();
                    while self.active.load(SeqCst) < 2 && t.elapsed() < Duration::from_micros(300) {
                        std::hint::spin_loop();
                    }
                }
                _ => {}
            }
        }
        self.active.fetch_sub(1, SeqCst);
        self.used.lock().unwrap().remove(&addr);
        let p = PANIC_AT.get();
        if p >= 0 {
            PANIC_AT.set(p - 1);
            if p == 0 {
                panic!("injected panic of a rule");
            }
        }
    }
}

fn bad_rule(rng: &mut Rng) -> (Arc<dyn RuleConfig>, &'static str) {
    let kw = |n: usize, i: Vec<&str>| {
        RegexRuleConfig::new("abc").proximity_keywords(ProximityKeywordsConfig {
            look_ahead_character_count: n,
            included_keywords: i.into_iter().map(|x| x.to_string()).collect(),
            excluded_keywords: vec![],
        })
    };
    match rng.below(5) {
        0 => (RegexRuleConfig::new("ab(c").build(), "InvalidRegex"),
        1 => (RegexRuleConfig::new("x*").build(), "InvalidRegex"),
        2 => (kw(0, vec!["key"]).build(), "InvalidKeywords"),
        3 => (kw(10, vec!["key", " "]).build(), "InvalidKeywords"),
        _ => (
            RegexRuleConfig::new("abc")
                .match_action(MatchAction::PartialRedact {
                    direction: PartialRedactDirection::LastCharacters,
                    character_count: 0,
                })
                .build(),
            "InvalidMatchAction",
        ),
    }
}
fn failing_build(rng: &mut Rng, rules: &[MRule]) -> Option<(String, String)> {
    let mut cfg: Vec<Arc<dyn RuleConfig>> = rules
        .iter()
        .map(|r| Arc::new(r.to_config()) as Arc<dyn RuleConfig>)
        .collect();
    let (b, want) = bad_rule(rng);
    let at = rng.below(cfg.len() + 1);
    cfg.insert(at, b);
    match guarded(|| Scanner::builder(&cfg).build()) {
        Ok(Err(e)) if format!("{e:?}").starts_with(want) => None,
        Ok(Err(e)) => Some(("error kind".into(), format!("expected {want}, got {e:?}"))),
        Ok(Ok(_)) => Some(("accepted".into(), format!("a scanner was built with a rule that is {want}"))),
        Err(p) => Some((format!("panic:{}", p.loc), format!("building panicked at {}: {}", p.loc, p.msg))),
    }
}

// ---------------------------------------------------------------- P14

fn stress_case(case: &mut Case) -> Outcome {
    let k = knobs();
    let nw = case.rng.range(1, 4);
    let seed = case.rng.next();
    let inside = Inside::new(seed, case.n % 4 != 3);
    let mut worlds: Vec<(World, Digest)> = vec![];
    while worlds.len() < nw {
        let (mut w, o) = judged_world(&mut case.rng, &k);
        // the plug-in rule comes last
        w.blocked.retain(|b| *b != w.rules.len());
        let Ok(s) = build_scanner(&w.rules, w.feats) else { continue };
        match observe::<Utf8Encoding>(&s, &w.val, &w.blocked) {
            Ok(obs) => {
                if let Some((s, d)) = judge(&w, &o, &obs) {
                    return Outcome::Violated(s, format!("alone: {d}\n{}", w.describe()));
                }
                worlds.push((w, digest(&obs)));
            }
            Err((s, d)) => return Outcome::Violated(s, format!("{d}\n{}", w.describe())),
        }
    }
    let shared: Vec<RwLock<Arc<Scanner>>> = worlds
        .iter()
        .map(|(w, _)| RwLock::new(Arc::new(with_plugin(&w.rules, inside.plugin(), w.feats).unwrap())))
        .collect();
    let threads = case.rng.range(2, 12);
    let ops = case.rng.range(8, 40);
    let start = Barrier::new(threads);
    let counts: Vec<AtomicU64> = (0..6).map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (worlds, shared, inside, start, counts) = (&worlds, &shared, &inside, &start, &counts);
            let mut rng = Rng::new(seed ^ mix(t as u64 + 77));
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    start.wait();
                    for _ in 0..ops {
                        if !inside.faults.lock().unwrap().is_empty() {
                            return;
                        }
                        let i = rng.below(worlds.len());
                        let (w, want) = &worlds[i];
                        let op = rng.below(16);
                        let check = |s: &Scanner, how: &str| match observe::<Utf8Encoding>(s, &w.val, &w.blocked) {
                            Ok(o) => {
                                let got = digest(&o);
                                if let Some(f) = o.faults.first() {
                                    inside.fault("protocol", format!("{how}: {f}\n{}", w.describe()));
                                } else if &got != want {
                                    inside.fault(
                                        "result differs",
                                        format!("{how}\nalone:\n{}{:?}\nnow:\n{}{:?}\n{}", want.0, want.1, got.0, got.1, w.describe()),
                                    );
                                }
                            }
                            Err((s, d)) => inside.fault(&s, format!("{how}: {d}\n{}", w.describe())),
                        };
                        match op {
                            0..=8 => {
                                counts[0].fetch_add(1, SeqCst);
                                inside.event(t, 0);
                                let s = shared[i].read().unwrap().clone();
                                check(&s, "concurrent scan with a shared scanner");
                                inside.event(t, 1);
                            }
                            9 | 10 => {
                                counts[1].fetch_add(1, SeqCst);
                                inside.event(t, 2);
                                match guarded(|| with_plugin(&w.rules, inside.plugin(), w.feats)) {
                                    Ok(Ok(s)) => check(&s, "scanner built while others scan"),
                                    Ok(Err(e)) => inside.fault("rejected", format!("{e:?}\n{}", w.describe())),
                                    Err(p) => inside.fault(&format!("panic:{}", p.loc), format!("build: {}\n{}", p.msg, w.describe())),
                                }
                                inside.event(t, 3);
                            }
                            11 => {
                                counts[2].fetch_add(1, SeqCst);
                                inside.event(t, 4);
                                if let Ok(s) = with_plugin(&w.rules, inside.plugin(), w.feats) {
                                    let old = std::mem::replace(&mut *shared[i].write().unwrap(), Arc::new(s));
                                    drop(old);
                                }
                                inside.event(t, 5);
                            }
                            12 => {
                                counts[3].fetch_add(1, SeqCst);
                                if let Some((s, d)) = failing_build(&mut rng, &w.rules) {
                                    inside.fault(&s, d);
                                }
                            }
                            13 | 14 => {
                                counts[4].fetch_add(1, SeqCst);
                                inside.event(t, 6);
                                let s = shared[i].read().unwrap().clone();
                                PANIC_AT.set(rng.below(3) as i64);
                                let r = observe::<Utf8Encoding>(&s, &w.val, &w.blocked);
                                let fired = PANIC_AT.get() == -1;
                                PANIC_AT.set(-1);
                                if let (true, Err((_, d))) = (!fired, &r) {
                                    inside.fault("panic", format!("{d}\n{}", w.describe()));
                                }
                                inside.event(t, 7);
                            }
                            _ => {
                                counts[5].fetch_add(1, SeqCst);
                                for r in &w.rules {
                                    if let Err(e) = dd_sds::validate_regex(&r.rx.pattern) {
                                        inside.fault("validation", format!("{:?}: {e:?}", r.rx.pattern));
                                    }
                                }
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    for (n, c) in [
        "concurrent scans",
        "scanners built during scans",
        "scanners replaced during scans",
        "failing builds during scans",
        "panicking scans",
        "validations during scans",
    ]
    .iter()
    .zip(&counts)
    {
        case.tagn(n, c.load(SeqCst));
    }
    let max = inside.max.load(SeqCst);
    case.tag(&format!("threads at once inside a rule: {max:02}"));
    case.tagn("regex cache sets in use", inside.seen.lock().unwrap().len() as u64);
    // afterwards, everything still works
    for (i, (w, want)) in worlds.iter().enumerate() {
        let s = shared[i].read().unwrap().clone();
        match observe::<Utf8Encoding>(&s, &w.val, &w.blocked) {
            Ok(o) if &digest(&o) == want => {}
            Ok(o) => inside.fault("result differs afterwards", format!("alone:\n{}now:\n{}{}", want.0, show_matches(&o.matches), w.describe())),
            Err((s, d)) => inside.fault(&s, format!("afterwards: {d}")),
        }
    }
    if let Some((s, d)) = inside.faults.lock().unwrap().first() {
        return Outcome::Violated(s.clone(), d.clone());
    }
    let order = inside.order.lock().unwrap();
    let mut h = seed;
    for e in order.iter() {
        h = mix(h ^ *e as u64);
    }
    case.tagn("ordered events", order.len() as u64);
    Outcome::Held(h, max >= 2)
}

fn pool_case(case: &mut Case) -> Outcome {
    struct Item {
        id: usize,
        busy: AtomicBool,
        sum: u64,
        uses: u64,
    }
    let created = Arc::new(AtomicUsize::new(0));
    let c2 = created.clone();
    let count = *case.rng.pick(&[0, 1, 2, 4, 5, 8, 9, 16, 17, 32, 33, 64, 200]);
    let pool: SharedPool<Box<Item>> = SharedPool::new(
        Box::new(move || {
            Box::new(Item {
                id: c2.fetch_add(1, SeqCst),
                busy: AtomicBool::new(false),
                sum: 0,
                uses: 0,
            })
        }),
        count,
    );
    let threads = case.rng.range(2, 16);
    let rounds = case.rng.range(20, 200);
    let seed = case.rng.next();
    let fault = Mutex::new(None);
    let ids = Mutex::new(HashSet::new());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (pool, fault, ids) = (&pool, &fault, &ids);
            sc.spawn(move || {
                let mut rng = Rng::new(seed ^ mix(t as u64));
                for _ in 0..rounds {
                    let die = rng.chance(1, 30);
                    let nested = rng.chance(1, 6);
                    let spins = rng.below(200);
                    let r = guarded(|| {
                        let mut g = pool.get();
                        let x = g.get_ref();
                        if x.busy.swap(true, SeqCst) {
                            *fault.lock().unwrap() = Some(format!("value {} was handed out twice", x.id));
                            return;
                        }
                        x.sum += 1;
                        x.uses += 1;
                        if x.sum != x.uses {
                            *fault.lock().unwrap() = Some("a value was modified by two users".into());
                        }
                        ids.lock().unwrap().insert(x.id);
                        if nested {
                            let mut g2 = pool.get();
                            let y = g2.get_ref();
                            if y.id == x.id || y.busy.swap(true, SeqCst) {
                                *fault.lock().unwrap() = Some("a value was handed out twice (nested)".into());
                                return;
                            }
                            y.busy.store(false, SeqCst);
                        }
                        for _ in 0..spins {
                            std::hint::spin_loop();
                        }
                        if spins > 190 {
                            std::thread::yield_now();
                        }
                        x.busy.store(false, SeqCst);
                        if die {
                            panic!("injected panic of a pool user");
                        }
                    });
                    if let Err(p) = r {
                        if !die {
                            *fault.lock().unwrap() = Some(format!("panic at {}: {}", p.loc, p.msg));
                        }
                    }
                }
            });
        }
    });
    case.tagn("pool values created", created.load(SeqCst) as u64);
    case.tagn("pool accesses", (threads * rounds) as u64);
    let f = fault.lock().unwrap().clone();
    if let Some(d) = f {
        return Outcome::Violated("pool".into(), format!("{d} (pool of {count}, {threads} threads)"));
    }
    // an unused pool value is reused, not created over and over
    if created.load(SeqCst) > threads * 2 + threads * rounds / 2 {
        case.tag("pools that mostly create");
    }
    let n = ids.lock().unwrap().len();
    Outcome::Held(mix(seed), n >= 1)
}

/// Several threads build scanners from equal, never seen patterns at the same moment, next to
/// scanners with patterns of their own; all of them are used afterwards, in any order.
fn twins_case(case: &mut Case) -> Outcome {
    static SERIAL: AtomicUsize = AtomicUsize::new(0);
    let serial = SERIAL.fetch_add(1, SeqCst);
    let threads = case.rng.range(2, 9);
    let seed = case.rng.next();
    let b = Barrier::new(threads);
    let kw = case.rng.chance(1, 2);
    // (word, scanner): the scanner finds the word followed by two digits
    let make = |word: &str| -> Result<(String, Scanner), String> {
        let mut c = dd_sds::RegexRuleConfig::new(&format!("{word}[0-9]{{2}}"));
        if kw {
            c = c.proximity_keywords(dd_sds::ProximityKeywordsConfig {
                look_ahead_character_count: 30,
                included_keywords: vec![format!("key{serial}")],
                excluded_keywords: vec![],
            });
        }
        match guarded(|| Scanner::builder(&[c.build()]).build()) {
            Ok(Ok(s)) => Ok((word.to_string(), s)),
            Ok(Err(e)) => Err(format!("building for {word:?} failed: {e:?}")),
            Err(p) => Err(format!("building for {word:?} panicked at {}: {}", p.loc, p.msg)),
        }
    };
    let built: Vec<Result<Vec<(String, Scanner)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (b, make) = (&b, &make);
                sc.spawn(move || {
                    let mut rng = Rng::new(seed ^ mix(t as u64));
                    let mut out = vec![];
                    for round in 0..2 {
                        b.wait();
                        out.push(make(&format!("twin{serial}r{round}x")));
                        if rng.chance(1, 3) {
                            b.wait();
                        } else {
                            b.wait();
                            std::thread::yield_now();
                        }
                        for i in 0..rng.range(1, 3) {
                            out.push(make(&format!("own{serial}r{round}t{t}i{i}x")));
                        }
                        if rng.chance(1, 4) {
                            out.remove(0);
                        }
                    }
                    out.into_iter().collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = vec![];
    for r in built {
        match r {
            Ok(v) => all.extend(v),
            Err(e) => return Outcome::Violated("twins: build".into(), e),
        }
    }
    let mut use_all = |rng: &mut Rng, all: &[(String, Scanner)]| -> Option<(String, String)> {
        for _ in 0..2 * all.len() {
            let (word, s) = rng.pick(all);
            let mut text = format!("key{serial} twin{serial}r9x11 {word}42 {word}4");
            let want = text.find(&format!("{word}42")).unwrap();
            match guarded(|| s.scan(&mut text, vec![])) {
                Err(p) => return Some(("twins: panic".into(), format!("a scan for {word:?} panicked at {}: {}", p.loc, p.msg))),
                Ok(m) => {
                    let got: Vec<(usize, usize)> = m.iter().map(|m| (m.start_index, m.end_index_exclusive)).collect();
                    if got != [(want, want + word.len() + 2)] {
                        return Some(("twins: result".into(), format!("{word:?} followed by two digits in {text:?}: {got:?} (built by {threads} threads at once)")));
                    }
                }
            }
        }
        None
    };
    if let Some((s, d)) = use_all(&mut case.rng, &all) {
        return Outcome::Violated(s, d);
    }
    // some are dropped, new ones take their place
    for _ in 0..all.len() / 3 {
        let i = case.rng.below(all.len());
        all.swap_remove(i);
    }
    for i in 0..4 {
        match make(&format!("late{serial}i{i}x")) {
            Ok(x) => all.push(x),
            Err(e) => return Outcome::Violated("twins: build".into(), e),
        }
    }
    if let Some((s, d)) = use_all(&mut case.rng, &all) {
        return Outcome::Violated(s, d);
    }
    case.tagn("equal patterns built at once", threads as u64 * 2);
    Outcome::Held(mix(seed), true)
}

/// Worlds for child processes, by seed.
fn child_worlds(seed: u64, n: usize) -> Vec<World> {
    let mut rng = Rng::new(seed);
    let k = knobs();
    (0..n).map(|_| judged_world(&mut rng, &k).0).collect()
}
fn world_digest(w: &World) -> u64 {
    match build_scanner(&w.rules, w.feats) {
        Err(e) => hash_str(&format!("{e:?}")),
        Ok(s) => match observe::<Utf8Encoding>(&s, &w.val, &w.blocked) {
            Ok(o) => hash_str(&format!("{:?}", digest(&o))),
            Err((s, _)) => hash_str(&s),
        },
    }
}
/// In a fresh process: the first scanners ever are built and used by several threads at once.
pub fn child(kind: &str, seed: u64) {
    let ws = child_worlds(seed, if kind == "race" { 8 } else { 60 });
    if kind == "race" {
        let b = Barrier::new(ws.len());
        let out: Vec<u64> = std::thread::scope(|s| {
            let hs: Vec<_> = ws
                .iter()
                .map(|w| {
                    let b = &b;
                    s.spawn(move || {
                        b.wait();
                        world_digest(w)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        println!("{out:?}");
    } else {
        println!("{:?}", ws.iter().map(world_digest).collect::<Vec<_>>());
    }
}
fn run_child(kind: &str, seed: u64) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = std::process::Command::new(exe)
        .args(["--child", kind, &seed.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                use std::io::Read;
                c.stdout.take().unwrap().read_to_string(&mut s).map_err(|e| e.to_string())?;
                return if st.success() { Ok(s.trim().to_string()) } else { Ok(format!("died: {st}")) };
            }
            Ok(None) if t.elapsed() > Duration::from_secs(120) => {
                let _ = c.kill();
                let _ = c.wait();
                return Ok("no answer after 120 s".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(e) => return Err(e.to_string()),
        }
    }
}

pub fn p14(ctx: &Ctx) {
    ctx.phase("stress", PhaseOpts { cases: ctx.n(700), threads: 2, max_s: ctx.secs(15.0) }, stress_case);
    ctx.phase("pool", PhaseOpts { cases: ctx.n(150), threads: 2, max_s: ctx.secs(6.0) }, pool_case);
    ctx.phase("twins", PhaseOpts { cases: ctx.n(150), threads: 2, max_s: ctx.secs(6.0) }, twins_case);
    ctx.phase("first use", PhaseOpts { cases: ctx.n(24), threads: 2, max_s: ctx.secs(10.0) }, |case| {
        let seed = case.rng.next();
        let want = format!("{:?}", child_worlds(seed, 8).iter().map(world_digest).collect::<Vec<_>>());
        match run_child("race", seed) {
            Err(e) => {
                case.ctx.infra(format!("child process: {e}"));
                Outcome::Abstain("child process")
            }
            Ok(got) if got != want => Outcome::Violated(
                "first use".into(),
                format!("8 threads that build and use the first scanners of a process: results {got}, alone {want}"),
            ),
            Ok(_) => Outcome::Held(seed, true),
        }
    });
}

// ---------------------------------------------------------------- P15

fn sibling_rules(rng: &mut Rng) -> Vec<MRule> {
    let mut base = rng.word(&["secret", "abc", "Ab1", "k0é", "x-y", "tok_en", "ID"]).to_string();
    let pad: String = if rng.chance(1, 12) { "q5w-".chars().cycle().take(*rng.pick(&[60, 130, 260, 600, 1100])).collect() } else { String::new() };
    let at = rng.below(3);
    if at == 0 {
        base = format!("{pad}{base}");
    } else if at == 1 {
        base = format!("{base}{pad}");
    } else {
        base = format!("{pad}{base}{pad}");
    }
    let other = rng.chance(1, 2);
    let left = rng.chance(1, 2);
    let mut out = vec![];
    let n = rng.range(2, 6);
    let words: Vec<String> = (0..2).map(|_| rng.word(&["key", "id", "x-y", "user_name", "card", "co.de", "secret"]).to_string()).collect();
    for _ in 0..n {
        let mut base = base.clone();
        if other && rng.chance(1, 2) {
            // another character at one place, the same length
            let mut cs: Vec<char> = base.chars().collect();
            let i = *rng.pick(&[0, cs.len() - 1, cs.len() / 2]);
            cs[i] = if cs[i] == 'Z' { 'z' } else { 'Z' };
            base = cs.into_iter().collect();
        }
        let node = match rng.below(11) {
            0 => lit(&base),
            9 => lit(&format!("{base}{}", rng.word(&[" ", "  ", "\t", "\n", "\u{a0}"]))),
            10 => lit(&format!("{}{base}", rng.word(&[" ", "  ", "\t", "\n", "\u{a0}"]))),
            1 => lit(&base.to_lowercase()),
            2 => lit(&base.to_uppercase().chars().take(base.chars().count()).collect::<String>()),
            3 => Node::Cat(vec![Node::SetFlags(vec!['i'], vec![]), lit(&base)]),
            4 => lit(&format!("{base} ")),
            5 => lit(&format!(" {base}")),
            6 => rep(Node::Perl('w'), 3, None),
            7 => rep(Node::Perl('w'), 3, Some(4)),
            _ => Node::Cat(vec![wb(), lit(&base), wb()]),
        };
        let mut rx = build(&node, rng, false);
        rx.pattern = if left { guard_c(&rx.pattern) } else { guard_a(&rx.pattern) };
        let nchars = *rng.pick(&[10, 12, 20, 30]);
        let kw = match rng.below(5) {
            0 => Some(MKw { n: nchars, inc: words.clone(), exc: vec![] }),
            1 => Some(MKw { n: nchars, inc: vec![], exc: words.clone() }),
            2 => Some(MKw { n: nchars, inc: words[..1].to_vec(), exc: words[1..].to_vec() }),
            3 => {
                let mut w = words.clone();
                w.reverse();
                if rng.chance(1, 2) {
                    Some(MKw { n: nchars, inc: w, exc: vec![] })
                } else {
                    Some(MKw { n: nchars, inc: vec![], exc: w })
                }
            }
            _ => None,
        };
        let r = MRule {
            node,
            rx,
            act: if rng.chance(1, 2) { gen_action(rng) } else { Act::None },
            scope: MScope::all(),
            kw,
            validator: None,
        };
        out.push(r);
    }
    out
}
/// Patterns whose texts hardly differ, all in use at the same time: each means what it says.
fn near_case(case: &mut Case) -> Outcome {
    let o = crate::rx::GenOpts { depth: 2, fancy: true, flags: true, asserts: true };
    let node = crate::rx::gen_alt(&mut case.rng, o);
    let base = if case.rng.chance(1, 3) {
        case.rng.word(&["ab+", "ab?", "a{2}", "(a|b)+", "\\d+", "[ab]{1,}", "ab", "aB", "\\w", "a.b", "A\\b", "b$", "x a", "(?i)ab", "[^a]"]).to_string()
    } else {
        build(&node, &mut case.rng, true).pattern
    };
    let mut all = vec![base.clone()];
    for _ in 0..case.rng.range(2, 6) {
        let rng = &mut case.rng;
        let from = all[rng.below(all.len())].clone();
        let mut cs: Vec<char> = from.chars().collect();
        let at = rng.below(cs.len().max(1)).min(cs.len().saturating_sub(1));
        let v = match rng.below(12) {
            0 => format!("{from}?"),
            1 => format!("{from}{}", rng.word(&["+", "*", "$", "\\b", "\\z", "\\Z", "|", "{1}", "{2,}"])),
            2 => format!("{from}{}", rng.word(&[" ", "\n", "\t", "\0", "\u{a0}"])),
            3 => format!("{}{from}", rng.word(&[" ", "\n", "^", "\\A", "\\b", "(?i)", "(?s)", "(?x)", "(?m)", "(?-i)"])),
            4 => format!("({from})"),
            5 => format!("(?:{from})"),
            6 => format!("(?i:{from})"),
            7 if !cs.is_empty() => {
                cs.pop();
                cs.into_iter().collect()
            }
            8 if !cs.is_empty() => {
                cs.remove(0);
                cs.into_iter().collect()
            }
            9 if !cs.is_empty() => {
                cs[at] = if cs[at].is_ascii_lowercase() { cs[at].to_ascii_uppercase() } else { cs[at].to_ascii_lowercase() };
                cs.into_iter().collect()
            }
            10 if !cs.is_empty() => {
                let c = cs[at];
                cs.insert(at, c);
                cs.into_iter().collect()
            }
            _ if !cs.is_empty() => {
                cs.remove(at);
                cs.into_iter().collect()
            }
            _ => from,
        };
        all.push(v);
    }
    let contents: Vec<String> = (0..3).map(|_| crate::rx::gen_content(&[&node], &mut case.rng, 5, true)).chain(["aabAB b\nba2 x a".to_string()]).collect();
    // in use, in any order
    for i in (1..all.len()).rev() {
        let j = case.rng.below(i + 1);
        all.swap(i, j);
    }
    let mut live = vec![];
    for p in &all {
        if let Ok(Ok(s)) = guarded(|| Scanner::builder(&[RegexRuleConfig::new(p).build()]).build()) {
            live.push(s);
        }
    }
    if live.is_empty() {
        return Outcome::Abstain("no valid pattern");
    }
    case.tagn("near patterns in use together", live.len() as u64);
    for p in &all {
        match super::admission::judge(case, p, &contents) {
            Outcome::Held(..) => {}
            Outcome::Violated(s, d) => return Outcome::Violated(s, format!("{d}\nwhile in use: {all:?}")),
            o => return o,
        }
    }
    Outcome::Held(hash_str(&all.join("\u{1}")), live.len() > 1)
}
fn sibling_world(rng: &mut Rng) -> (World, ScanOut) {
    loop {
        let rules = sibling_rules(rng);
        let k = Knobs {
            pieces: (2, 10),
            ..Knobs::default()
        };
        let mut hot = vec![];
        let mut contents: Vec<String> = (0..rng.range(1, 3)).map(|_| gen_content(rng, &rules, &k, &mut hot)).collect();
        let val = gen_tree(rng, &mut contents, 2, k.keys);
        let w = World {
            rules,
            feats: Features {
                path_keywords: rng.chance(1, 2),
                ..Features::default()
            },
            val,
            blocked: vec![],
        };
        if let Ok(o) = model::scan(&w.rules, w.feats, &w.val.strings(), &w.blocked) {
            return (w, o);
        }
    }
}

static BURST: AtomicU64 = AtomicU64::new(0);
fn burst(n: usize) -> Option<(String, String)> {
    for _ in 0..n {
        let i = BURST.fetch_add(1, SeqCst);
        let p = format!("zq{i}[a-f]{{{}}}", i % 3 + 1);
        let s = match Scanner::builder(&[RegexRuleConfig::new(&p).build()]).build() {
            Ok(s) => s,
            Err(e) => return Some(("rejected".into(), format!("{p}: {e:?}"))),
        };
        if i % 16 == 0 {
            let hit = format!("zq{i}{}", "abcf".chars().take((i % 3 + 1) as usize).collect::<String>());
            let m = s.scan(&mut format!("zq {hit}q"), vec![]);
            if m.len() != 1 || m[0].start_index != 3 || m[0].end_index_exclusive != 3 + hit.len() {
                return Some(("result differs".into(), format!("{p} on 'zq {hit}q': {m:?}")));
            }
        }
    }
    None
}

fn history_case(case: &mut Case) -> Outcome {
    struct Live {
        w: World,
        o: ScanOut,
        s: Scanner,
    }
    let k = knobs();
    let ops = case.rng.range(20, 90);
    let mut live: Vec<Live> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut kinds = 0u64;
    let inside = Inside::new(case.rng.next(), false);
    for step in 0..ops {
        let op = case.rng.below(20);
        kinds = mix(kinds ^ op as u64);
        match op {
            0..=5 => {
                let (w, o) = if case.rng.chance(1, 2) {
                    sibling_world(&mut case.rng)
                } else {
                    judged_world(&mut case.rng, &k)
                };
                match guarded(|| build_scanner(&w.rules, w.feats)) {
                    Ok(Ok(s)) => {
                        trace.push(format!("build {}", w.rules.iter().map(|r| r.describe()).collect::<Vec<_>>().join(" | ")));
                        case.tag("scanners built");
                        live.push(Live { w, o, s });
                    }
                    Ok(Err(dd_sds::CreateScannerError::InvalidRegex(dd_sds::RegexValidationError::TooComplex))) => {}
                    Ok(Err(e)) => return Outcome::Violated("rejected".into(), format!("{e:?}\n{}\nafter {trace:#?}", w.describe())),
                    Err(p) => return Outcome::Violated(format!("panic:{}", p.loc), format!("build: {}\n{}", p.msg, w.describe())),
                }
            }
            6 | 7 if !live.is_empty() => {
                let i = case.rng.below(live.len());
                trace.push(format!("drop {i}"));
                live.swap_remove(i);
                case.tag("scanners dropped");
            }
            8 => {
                // a scanner with the rules of a live one, built again and dropped
                if let Some(l) = live.first() {
                    if build_scanner(&l.w.rules, l.w.feats).is_err() {
                        return Outcome::Violated("rejected".into(), l.w.describe());
                    }
                    trace.push("rebuild 0".into());
                }
            }
            9 => {
                let rules = live.first().map(|l| l.w.rules.clone()).unwrap_or_default();
                if let Some((s, d)) = failing_build(&mut case.rng, &rules) {
                    return Outcome::Violated(s, d);
                }
                trace.push("failing build".into());
                case.tag("failing builds");
            }
            10 => {
                if !live.is_empty() {
                    let i = case.rng.below(live.len());
                    let l = &live[i];
                    if let Ok(s) = with_plugin(&l.w.rules, inside.plugin(), l.w.feats) {
                        PANIC_AT.set(case.rng.below(3) as i64);
                        let _ = observe::<Utf8Encoding>(&s, &l.w.val, &[]);
                        PANIC_AT.set(-1);
                        trace.push(format!("panicking scan {i}"));
                        case.tag("panicking scans");
                    }
                }
            }
            11 => {
                let n = *case.rng.pick(&[1, 10, 60, 150]);
                if let Some((s, d)) = burst(n) {
                    return Outcome::Violated(s, format!("{d}\nafter {trace:#?}"));
                }
                trace.push(format!("{n} other patterns"));
                case.tagn("other patterns interned", n as u64);
            }
            12 => {
                if let Some(l) = live.last() {
                    for r in &l.w.rules {
                        let _ = dd_sds::validate_regex(&r.rx.pattern);
                    }
                }
            }
            _ => {}
        }
        if live.len() > 8 {
            live.remove(0);
        }
        if live.is_empty() {
            continue;
        }
        // scan with one of the live scanners, its own event or that of another
        let i = case.rng.below(live.len());
        let j = if case.rng.chance(1, 3) { case.rng.below(live.len()) } else { i };
        let l = &live[i];
        let (w, o) = if i == j {
            (None, Ok(l.o.clone()))
        } else {
            let w = World {
                rules: l.w.rules.clone(),
                feats: l.w.feats,
                val: live[j].w.val.clone(),
                blocked: l.w.blocked.clone(),
            };
            let o = model::scan(&w.rules, w.feats, &w.val.strings(), &w.blocked);
            (Some(w), o)
        };
        let w = w.as_ref().unwrap_or(&l.w);
        trace.push(format!("scan {i} event {j}"));
        case.tag("scans");
        match (observe::<Utf8Encoding>(&l.s, &w.val, &w.blocked), o) {
            (Err((s, d)), _) => return Outcome::Violated(s, format!("{d}\n{}\nstep {step} after {trace:#?}", w.describe())),
            (Ok(obs), Ok(o)) => {
                if let Some((s, d)) = judge(w, &o, &obs) {
                    return Outcome::Violated(s, format!("{d}\n{}\nstep {step} after {trace:#?}", w.describe()));
                }
                case.tag("scans judged");
            }
            _ => case.tag("scans without an opinion"),
        }
    }
    if case.verbose {
        println!("{trace:#?}");
    }
    case.sample = Some(json!({"history": trace.iter().take(25).map(|t| t.chars().take(160).collect::<String>()).collect::<Vec<_>>()}));
    Outcome::Held(kinds, true)
}

pub fn p15(ctx: &Ctx) {
    ctx.phase("near patterns", opts(ctx, 4_000, 10.0), near_case);
    ctx.phase("siblings", opts(ctx, 6_000, 8.0), |case| {
        let (w, _) = sibling_world(&mut case.rng);
        run_world::<Utf8Encoding>(case, &w)
    });
    ctx.phase("history", opts(ctx, 1_200, 22.0), history_case);
    // slots of the store are used again: scanners that are alive across garbage collections, and
    // patterns that take the place of dropped ones
    ctx.phase("collections", PhaseOpts { cases: ctx.n(3), threads: 1, max_s: ctx.secs(12.0) }, |case| {
        let mut keep = vec![];
        for _ in 0..12 {
            let (w, o) = judged_world(&mut case.rng, &knobs());
            let Ok(s) = build_scanner(&w.rules, w.feats) else { continue };
            let _ = observe::<Utf8Encoding>(&s, &w.val, &w.blocked);
            if case.rng.chance(1, 2) {
                keep.push((w, o, s));
            }
        }
        for round in 0..3 {
            if let Some((s, d)) = burst(400) {
                return Outcome::Violated(s, d);
            }
            case.tagn("other patterns interned", 400);
            let mut fresh = vec![];
            for _ in 0..25 {
                let (w, o) = if case.rng.chance(1, 2) { sibling_world(&mut case.rng) } else { judged_world(&mut case.rng, &knobs()) };
                let Ok(s) = build_scanner(&w.rules, w.feats) else { continue };
                fresh.push((w, o, s));
            }
            for (w, o, s) in fresh.iter().chain(keep.iter()) {
                match observe::<Utf8Encoding>(s, &w.val, &w.blocked) {
                    Err((sig, d)) => return Outcome::Violated(sig, format!("{d}\n{}", w.describe())),
                    Ok(obs) => {
                        if let Some((sig, d)) = judge(w, o, &obs) {
                            return Outcome::Violated(sig, format!("after {round} rounds of replacing patterns: {d}\n{}", w.describe()));
                        }
                        case.tag("scans across collections");
                    }
                }
            }
        }
        Outcome::Held(case.rng.next(), true)
    });
    // the same in a process without a history
    ctx.phase("fresh process", PhaseOpts { cases: ctx.n(6), threads: 6, max_s: ctx.secs(20.0) }, |case| {
        let seed = case.rng.next();
        let here = format!("{:?}", child_worlds(seed, 60).iter().map(world_digest).collect::<Vec<_>>());
        match run_child("fresh", seed) {
            Err(e) => {
                case.ctx.infra(format!("child process: {e}"));
                Outcome::Abstain("child process")
            }
            Ok(got) if got != here => Outcome::Violated(
                "fresh process".into(),
                format!("60 rule sets (seed {seed}): a fresh process reports {got}, this one {here}"),
            ),
            Ok(_) => {
                case.tagn("results compared with a fresh process", 60);
                Outcome::Held(seed, true)
            }
        }
    });
}

// ---------------------------------------------------------------- P16

fn labels_of(l: &[(String, String)]) -> Labels {
    Labels::new(l)
}
fn gen_labels(rng: &mut Rng, n: usize) -> Vec<(String, String)> {
    (0..rng.below(n + 1))
        .map(|_| (rng.word(&["team", "env", "rule", "type", "é", "", " team", "Env", "a:b"]).to_string(), rng.word(&["a", "b", "", "x y", " a", "A", "b "]).to_string()))
        .collect()
}
fn metrics_case(case: &mut Case, k: &Knobs) -> Outcome {
    let rec = Rec::default();
    let nscan = case.rng.range(1, 3);
    let mut desc = String::new();
    let mut want: BTreeMap<crate::rec::MKey, u64> = BTreeMap::new();
    let mut interesting = 0;
    let mut bad = None;
    let rules_shared: Option<Vec<MRule>> = None;
    let _ = rules_shared;
    metrics::with_local_recorder(&rec, || {
        let mut scanners = vec![];
        for _ in 0..nscan {
            let (w, _) = judged_world(&mut case.rng, k);
            let sl = gen_labels(&mut case.rng, 2);
            let rl: Vec<Vec<(String, String)>> = w.rules.iter().map(|_| gen_labels(&mut case.rng, 2)).collect();
            let cfg: Vec<Arc<dyn RuleConfig>> = w
                .rules
                .iter()
                .zip(&rl)
                .map(|(r, l)| Arc::new(r.to_config().labels(labels_of(l))) as Arc<dyn RuleConfig>)
                .collect();
            let s = Scanner::builder(&cfg)
                .labels(labels_of(&sl))
                .with_keywords_should_match_event_paths(w.feats.path_keywords)
                .with_implicit_wildcard_indexes_for_scopes(w.feats.implicit_wildcards)
                .with_multipass_v0(w.feats.multipass)
                .build();
            let Ok(s) = s else { continue };
            desc.push_str(&format!("scanner labels {sl:?} rule labels {rl:?}\n{}", w.describe()));
            scanners.push((w, sl, rl, s));
        }
        if scanners.is_empty() {
            return;
        }
        for _ in 0..case.rng.range(1, 6) {
            let i = case.rng.below(scanners.len());
            let (w, sl, rl, s) = &scanners[i];
            let j = case.rng.below(scanners.len());
            let val = if case.rng.chance(1, 4) { &scanners[j].0.val } else { &w.val };
            let Ok(o) = model::scan(&w.rules, w.feats, &val.strings(), &w.blocked) else { continue };
            let obs = match observe::<Utf8Encoding>(s, val, &w.blocked) {
                Ok(o) => o,
                Err((s, d)) => {
                    bad = Some((s, d));
                    return;
                }
            };
            if diff(&w.rules, val, &o, model::Unit::Utf8, &obs).is_some() {
                // decided by P01
                want.insert(mkey("skip", &[]), 1);
                return;
            }
            *want.entry(mkey("scanned_events", sl)).or_insert(0) += 1;
            *want.entry(mkey("scanning.match_count", sl)).or_insert(0) += obs.matches.len() as u64;
            for r in 0..w.rules.len() {
                let mut l = sl.clone();
                l.extend(rl[r].clone());
                *want.entry(mkey("false_positive.multipass.excluded_match", &l)).or_insert(0) += o.fp_multipass[r];
                l.push(("type".into(), "excluded_keywords".into()));
                *want.entry(mkey("false_positive.proximity_keywords", &l)).or_insert(0) += o.fp_kw[r];
                interesting += o.fp_multipass[r] + o.fp_kw[r];
                case.tagn("suppressed by excluded keyword", o.fp_kw[r]);
                case.tagn("suppressed by excluded path", o.fp_multipass[r]);
            }
            case.tag("scans");
            case.tagn("matches", obs.matches.len() as u64);
            interesting += obs.matches.len() as u64;
        }
    });
    if let Some((s, d)) = bad {
        return Outcome::Violated(s, format!("{d}\n{desc}"));
    }
    if want.contains_key(&mkey("skip", &[])) {
        return Outcome::Abstain("the scan disagrees with the reference (P01)");
    }
    for name in [
        "scanned_events",
        "scanning.match_count",
        "false_positive.multipass.excluded_match",
        "false_positive.proximity_keywords",
    ] {
        let w: BTreeMap<_, _> = want.iter().filter(|(k, v)| k.0 == name && **v > 0).map(|(k, v)| (k.clone(), *v)).collect();
        let got = rec.named(name);
        if w != got {
            return Outcome::Violated(name.into(), format!("metric {name}: expected {w:?}, recorded {got:?}\n{desc}"));
        }
    }
    Outcome::Held(hash_str(&desc), interesting > 0)
}

pub fn p16(ctx: &Ctx) {
    let rec = Rec::default();
    let _ = metrics::set_global_recorder(rec.clone());
    // first, while nothing else runs: global counters and gauges
    ctx.phase("global", PhaseOpts { cases: ctx.n(60), threads: 1, max_s: ctx.secs(6.0) }, |case| {
        let c = |n: &str| rec.counter(&mkey(n, &[]));
        let (c0, d0, g0) = (c("scanner.creations"), c("scanner.deletions"), rec.gauge("scanner.total_count"));
        let (mut made, mut gone) = (0u64, 0u64);
        let mut live: Vec<Scanner> = vec![];
        let mut trace = vec![];
        for _ in 0..case.rng.range(3, 25) {
            match case.rng.below(8) {
                0..=3 => {
                    let n = case.rng.below(4);
                    let cfg: Vec<Arc<dyn RuleConfig>> = (0..n).map(|i| RegexRuleConfig::new(&format!("ab{i}")).build()).collect();
                    live.push(Scanner::builder(&cfg).labels(labels_of(&gen_labels(&mut case.rng, 1))).build().unwrap());
                    made += 1;
                    trace.push("build");
                }
                4 => {
                    if let Some((s, d)) = failing_build(&mut case.rng, &[]) {
                        return Outcome::Violated(s, d);
                    }
                    trace.push("failing build");
                }
                5 | 6 if !live.is_empty() => {
                    let i = case.rng.below(live.len());
                    let s = live.swap_remove(i);
                    if case.rng.chance(1, 4) {
                        // by unwinding
                        let _ = guarded(move || {
                            let _s = s;
                            panic!("on purpose");
                        });
                    } else {
                        drop(s);
                    }
                    gone += 1;
                    trace.push("drop");
                }
                7 if !live.is_empty() => {
                    // many at once
                    let n = case.rng.range(1, 6);
                    crate::rec::SET_DELAY.store(case.rng.range(1, 60) as u64, SeqCst);
                    let start = std::sync::Barrier::new(n);
                    std::thread::scope(|s| {
                        for _ in 0..n {
                            s.spawn(|| {
                                start.wait();
                                for _ in 0..3 {
                                    drop(Scanner::builder(&[RegexRuleConfig::new("abc").build()]).build().unwrap());
                                }
                            });
                        }
                    });
                    crate::rec::SET_DELAY.store(0, SeqCst);
                    made += n as u64 * 3;
                    gone += n as u64 * 3;
                    trace.push("concurrent builds and drops");
                }
                _ => {
                    if let Some(s) = live.first() {
                        s.scan(&mut "ab1".to_string(), vec![]);
                    }
                    trace.push("scan");
                }
            }
            let now = (c("scanner.creations") - c0, c("scanner.deletions") - d0, rec.gauge("scanner.total_count"));
            let want = (made, gone, g0 + made as f64 - gone as f64);
            if now != want {
                return Outcome::Violated(
                    "scanner counts".into(),
                    format!("(creations, deletions, total): expected {want:?}, recorded {now:?} after {trace:?}"),
                );
            }
        }
        let n = live.len() as u64;
        drop(live);
        let now = (c("scanner.deletions") - d0, rec.gauge("scanner.total_count"));
        if now != (gone + n, g0) {
            return Outcome::Violated("scanner counts".into(), format!("after dropping everything: {now:?}, expected {:?}", (gone + n, g0)));
        }
        case.tagn("scanners created", made);
        Outcome::Held(hash_str(&format!("{trace:?}")), made > 0)
    });
    // gauges of the regex store: patterns of one shape all have the same cache size
    ctx.phase("store", PhaseOpts { cases: 1, threads: 1, max_s: ctx.secs(20.0) }, |case| {
        let cycles = if case.ctx.tier == Tier::Quick { 3 } else { 12 };
        let g = || (rec.gauge("scanner.total_regexes"), rec.gauge("scanner.total_regex_cache_size"));
        let pat = |i: usize| format!("zq{i:07}[a-f]{{2}}");
        let b = |i: usize| Scanner::builder(&[RegexRuleConfig::new(&pat(i)).build()]).build().unwrap();
        // throw away what earlier phases left behind
        for i in 0..1100 {
            drop(b(i));
        }
        let (n0, s0) = g();
        let first = b(2000);
        let (n1, s1) = g();
        let per = s1 - s0;
        if n1 - n0 != 1.0 || per <= 0.0 {
            return Outcome::Violated(
                "store gauges".into(),
                format!("one new pattern changed the number of regexes from {n0} to {n1} and the cache size from {s0} to {s1}"),
            );
        }
        // the same pattern again does not count again
        let again = b(2000);
        if g() != (n1, s1) {
            return Outcome::Violated("store gauges".into(), format!("a pattern that is in use was counted again: {:?} after {:?}", g(), (n1, s1)));
        }
        drop(again);
        let mut minima = vec![];
        let mut id = 3000;
        let mut kept = vec![first];
        for cycle in 0..cycles {
            let mut min = f64::MAX;
            let mut drops = 0;
            let mut last = g();
            for k in 0..1000 {
                id += 1;
                let s = b(id);
                if k % 100 == 50 && cycle < 2 {
                    kept.push(s);
                } else {
                    drop(s);
                }
                let now = g();
                case.tag("store gauge observations");
                let (dn, ds) = (now.0 - last.0, now.1 - last.1);
                if (ds - dn * per).abs() > 0.5 {
                    return Outcome::Violated(
                        "store gauges".into(),
                        format!("cycle {cycle}, pattern {k}: the number of regexes changed by {dn} but the cache size by {ds} (each has {per})"),
                    );
                }
                if dn < 0.0 {
                    drops += 1;
                } else if dn != 1.0 {
                    return Outcome::Violated("store gauges".into(), format!("a new pattern changed the number of regexes by {dn}"));
                }
                if now.0 < kept.len() as f64 {
                    return Outcome::Violated("store gauges".into(), format!("{} regexes in use, gauge {}", kept.len(), now.0));
                }
                min = min.min(now.0 - kept.len() as f64);
                last = now;
            }
            case.tagn("store collections observed", drops);
            minima.push(min);
        }
        if minima.iter().any(|m| *m > 1000.0) {
            return Outcome::Violated("store gauges".into(), format!("dropped regexes are never removed: unused regexes per cycle at least {minima:?}"));
        }
        // a dropped pattern that is used again is counted once
        let reuse = kept.pop().unwrap();
        drop(reuse);
        let before = g();
        let last_kept = b(id + 1);
        drop(last_kept);
        let mid = g();
        let again = b(id + 1);
        let after = g();
        if mid.0 > before.0 && (after.0 != mid.0 || (after.1 - mid.1).abs() > 0.5) {
            return Outcome::Violated(
                "store gauges".into(),
                format!("rebuilding a dropped pattern changed (regexes, cache size) from {mid:?} to {after:?}"),
            );
        }
        drop(again);
        // patterns of very different sizes, built, dropped and built again: once all of them are collected, nothing
        // of them is left in the gauges
        drop(kept);
        let settle = |id: &mut usize| {
            let mut least = (f64::MAX, f64::MAX);
            for _ in 0..1100 {
                *id += 1;
                drop(b(*id));
                let (n, s) = g();
                if n < least.0 {
                    least = (n, s - n * per);
                }
            }
            least
        };
        let (n0, rest0) = settle(&mut id);
        let mixed: Vec<String> = (0..60)
            .map(|i| match i % 6 {
                0 => format!("mx{i}"),
                1 => format!("mx{i}[a-f]{{{}}}", 10 + i),
                2 => format!("mx{i}\\p{{L}}{{{}}}", 2 + i / 6),
                3 => format!("(?i)mx{i}(?:{})", ["one", "two", "three", "four"].repeat(1 + i / 10).join("|")),
                4 => format!("\\bmx{i}\\w*?z{{1,{}}}", 5 + i * 4),
                _ => format!("mx{i}.{{{}}}", 20 * (1 + i / 6)),
            })
            .collect();
        let build = |p: &str| Scanner::builder(&[RegexRuleConfig::new(p).build()]).build().unwrap();
        let mut alive: Vec<(usize, Scanner)> = vec![];
        for _ in 0..600 {
            let i = case.rng.below(mixed.len());
            let before = g();
            let in_use = alive.iter().any(|x| x.0 == i);
            let s = build(&mixed[i]);
            let after = g();
            case.tag("mixed store gauge observations");
            if in_use && after != before {
                return Outcome::Violated("store gauges".into(), format!("{:?} is in use, building it again changed the gauges from {before:?} to {after:?}", mixed[i]));
            }
            if after.1 < 0.0 || after.0 < 1.0 {
                return Outcome::Violated("store gauges".into(), format!("after building {:?}: {after:?}", mixed[i]));
            }
            if case.rng.chance(1, 3) {
                alive.push((i, s));
            } else {
                drop(s);
            }
            if alive.len() > 8 {
                let k = case.rng.below(alive.len());
                alive.swap_remove(k);
            }
        }
        drop(alive);
        let (n1, rest1) = settle(&mut id);
        if n1 != n0 || (rest1 - rest0).abs() > 0.5 {
            return Outcome::Violated(
                "store gauges".into(),
                format!("nothing is in use: {n0} regexes and {rest0} bytes besides the regular ones before, {n1} and {rest1} after building and dropping patterns of many sizes"),
            );
        }
        Outcome::Held(hash_str("store"), true)
    });
    ctx.phase("duration", PhaseOpts { cases: ctx.n(12), threads: 4, max_s: ctx.secs(5.0) }, |case| {
        let rec = Rec::default();
        let sleep = Duration::from_millis(case.rng.range(2, 6) as u64);
        let scans = case.rng.range(1, 4);
        let sl = gen_labels(&mut case.rng, 2);
        let (dur, wall) = metrics::with_local_recorder(&rec, || {
            let mut p = ScriptCfg::ranges(Act::None, vec![]);
            p.hook = Some(Arc::new(move |_, _| std::thread::sleep(sleep)));
            let s = Scanner::builder(&[Arc::new(p) as Arc<dyn RuleConfig>]).labels(labels_of(&sl)).build().unwrap();
            let mut wall = Duration::ZERO;
            for _ in 0..scans {
                let t = Instant::now();
                s.scan(&mut "abc".to_string(), vec![]);
                wall += t.elapsed();
            }
            (rec.counter(&mkey("scanning.duration", &sl)), wall)
        });
        let lo = (sleep * scans as u32).as_nanos() as u64;
        let hi = wall.as_nanos() as u64;
        if dur < lo || dur > hi {
            return Outcome::Violated(
                "duration".into(),
                format!("{scans} scans of at least {sleep:?} each, {wall:?} in all: scanning.duration with the labels {sl:?} of the scanner is {dur} ns"),
            );
        }
        Outcome::Held(mix(dur), true)
    });
    let k = Knobs {
        scope: 45,
        exc: 40,
        inc: 15,
        repeat: 30,
        depth: 3,
        strings: (1, 6),
        simple: 85,
        ..knobs()
    };
    ctx.phase("labels", opts(ctx, 12_000, 14.0), |case| metrics_case(case, &k));
    let big = Knobs { big: 100, ..k };
    ctx.phase("labels, scale", opts(ctx, 500, 8.0), |case| metrics_case(case, &big));
}

/// For P11: every removal is counted.
pub fn metrics_phase(ctx: &Ctx, cases: u64, s: f64) {
    let k = Knobs {
        scope: 70,
        repeat: 45,
        depth: 3,
        strings: (2, 6),
        simple: 90,
        pieces: (1, 5),
        ..Knobs::default()
    };
    ctx.phase("counted", opts(ctx, cases, s), |case| metrics_case(case, &k));
}

// ---------------------------------------------------------------- P23

fn contract_case(case: &mut Case) -> Outcome {
    let mut own = case.rng.clone();
    let rng = &mut own;
    let mut contents: Vec<String> = (0..rng.range(1, 5)).map(|_| { let n = rng.range(1, 12); noise(rng, false, n) }).collect();
    let val = gen_tree(rng, &mut contents, 3, crate::events::KEYS);
    let vals: Vec<Val> = vec![val.clone(), {
        let mut c: Vec<String> = (0..rng.range(1, 3)).map(|_| { let n = rng.range(0, 8); noise(rng, false, n) }).collect();
        gen_tree(rng, &mut c, 2, crate::events::KEYS)
    }];
    let n = rng.range(1, 6);
    let log: Arc<Mutex<Vec<Call>>> = Default::default();
    let compiled: Arc<Mutex<Vec<(usize, String)>>> = Default::default();
    let mut cfgs: Vec<Option<ScriptCfg>> = vec![];
    let mut desc = String::new();
    for i in 0..n {
        if rng.chance(1, 5) {
            cfgs.push(None);
            continue;
        }
        let h = rng.next();
        let none = rng.chance(1, 3);
        let mut c = ScriptCfg::new(
            if rng.chance(1, 2) { gen_action(rng) } else { Act::None },
            Arc::new(move |s: &str| {
                if none || s.is_empty() {
                    return vec![];
                }
                let b: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
                let mut r = Rng::new(h ^ hash_str(s));
                let mut out: Vec<(usize, usize)> = vec![];
                for _ in 0..r.range(1, 3) {
                    let a = r.below(b.len() - 1);
                    let e = r.range(a + 1, b.len() - 1);
                    if !out.contains(&(b[a], b[e])) {
                        out.push((b[a], b[e]));
                    }
                }
                out
            }),
        );
        c.kind = rng.below(2) as u8;
        c.alt = rng.chance(1, 3);
        c.log = Some(log.clone());
        c.compiled = Some(compiled.clone());
        c.multipass = rng.chance(1, 2);
        c.feed_excluded = rng.chance(1, 2);
        if rng.chance(1, 2) {
            let paths = |rng: &mut Rng, a: usize, b: usize| (0..rng.range(a, b)).map(|_| gen_path(rng, &val, crate::events::KEYS)).collect::<Vec<_>>();
            c.scope = match rng.below(3) {
                0 => MScope::Exclude(paths(rng, 0, 2)),
                1 => MScope::Include(paths(rng, 0, 2), vec![]),
                _ => MScope::Include(paths(rng, 1, 2), paths(rng, 1, 2)),
            };
        }
        desc.push_str(&format!("rule {i}: kind {} action {:?} scope {:?} multipass {} feeds {}\n", c.kind, c.act, c.scope, c.multipass, c.feed_excluded));
        cfgs.push(Some(c));
    }
    let feats = Features {
        path_keywords: rng.chance(1, 3),
        implicit_wildcards: rng.chance(1, 3),
        multipass: rng.chance(2, 3),
    };
    desc.push_str(&format!("{feats:?}\nevents {vals:?}\n"));
    let cfg: Vec<Arc<dyn RuleConfig>> = cfgs
        .iter()
        .map(|c| match c {
            None => RegexRuleConfig::new("never-matches").build(),
            Some(c) if rng.chance(1, 4) => Arc::new(Box::new(c.clone())) as Arc<dyn RuleConfig>,
            Some(c) => Arc::new(c.clone()) as Arc<dyn RuleConfig>,
        })
        .collect();
    let labels = gen_labels(rng, 2);
    let nscanners = rng.range(1, 2);
    let mut caches_seen: HashSet<u64> = HashSet::new();
    let mut groups_seen: HashSet<u64> = HashSet::new();
    let mut calls = 0;
    for sc in 0..nscanners {
        let lab = if sc == 0 { labels.clone() } else { vec![] };
        let s = Scanner::builder(&cfg)
            .labels(labels_of(&lab))
            .with_keywords_should_match_event_paths(feats.path_keywords)
            .with_implicit_wildcard_indexes_for_scopes(feats.implicit_wildcards)
            .with_multipass_v0(feats.multipass)
            .build();
        let s = match s {
            Ok(s) => s,
            Err(e) => return Outcome::Violated("rejected".into(), format!("{e:?}\n{desc}")),
        };
        let lab_text = format!("{:?}", labels_of(&lab));
        let mut comp = std::mem::take(&mut *compiled.lock().unwrap());
        comp.sort();
        let want: Vec<(usize, String)> = (0..n).filter(|i| cfgs[*i].is_some()).map(|i| (i, lab_text.clone())).collect();
        if comp != want {
            return Outcome::Violated("compilation".into(), format!("compiled (index, labels): {comp:?}, expected {want:?}\n{desc}"));
        }
        for _ in 0..rng.range(1, 3) {
            let v = &vals[rng.below(2)];
            let blocked: Vec<usize> = (0..n).filter(|_| rng.chance(1, 6)).collect();
            log.lock().unwrap().clear();
            for c in cfgs.iter().flatten() {
                c.excluded_hits.store(0, SeqCst);
            }
            let utf16 = rng.chance(1, 3);
            let obs = if utf16 { observe::<Utf16Encoding>(&s, v, &blocked) } else { observe::<Utf8Encoding>(&s, v, &blocked) };
            let obs = match obs {
                Ok(o) => o,
                Err((s, d)) => return Outcome::Violated(s, format!("{d}\n{desc}")),
            };
            let got = std::mem::take(&mut *log.lock().unwrap());
            calls += got.len();
            // --- the calls
            let strings = v.strings();
            let mut want_calls: BTreeMap<(usize, usize), bool> = BTreeMap::new();
            for (si, (p, _)) in strings.iter().enumerate() {
                for (i, c) in cfgs.iter().enumerate() {
                    let Some(c) = c else { continue };
                    let (inc, exc) = model::in_scope(&c.scope, p, feats.implicit_wildcards);
                    if inc && !blocked.contains(&i) {
                        want_calls.insert((si, i), exc);
                    }
                }
            }
            let mut seen_calls: BTreeSet<(usize, usize)> = BTreeSet::new();
            let mut si = 0usize;
            let mut group_of: BTreeMap<(usize, u8), (u64, u64)> = BTreeMap::new();
            let mut cache_of: BTreeMap<u8, (u64, u64)> = BTreeMap::new();
            let fail = |sig: &str, d: String| Outcome::Violated(sig.into(), format!("{d}\nblocked {blocked:?}\ncalls {got:#?}\n{desc}"));
            for c in &got {
                // strings come in the order of the event
                let pos = (0..strings.len()).find(|j| {
                    format!("{:?}", strings[*j].0.segments) == c.path && strings[*j].1 == c.content
                });
                let Some(pos) = pos else {
                    return fail("call", format!("rule {} was called with a content/path that is not in the event: {:?} {:?}", c.rule, c.path, c.content));
                };
                if pos < si {
                    return fail("call order", format!("string {pos} was scanned after string {si}"));
                }
                si = pos;
                match want_calls.get(&(pos, c.rule)) {
                    None => return fail("call", format!("rule {} was called for string {pos}, which is out of its scope (or the rule is blocked)", c.rule)),
                    Some(e) if *e != c.excluded => return fail("exclusion", format!("rule {} string {pos}: is_excluded is {}", c.rule, c.excluded)),
                    _ => {}
                }
                if !seen_calls.insert((pos, c.rule)) {
                    return fail("call", format!("rule {} was called twice for string {pos}", c.rule));
                }
                let k = cfgs[c.rule].as_ref().unwrap().kind;
                if k != c.kind || c.kw_paths != feats.path_keywords {
                    return fail("call", format!("rule {}: kind {} path keywords {}", c.rule, c.kind, c.kw_paths));
                }
                // group data: one per string and type
                let (gid, guses) = *group_of.entry((pos, k)).or_insert((c.group.0, 0));
                if (gid, guses) != c.group {
                    return fail("group data", format!("rule {} string {pos}: group data {:?}, expected {:?}", c.rule, c.group, (gid, guses)));
                }
                if guses == 0 && !groups_seen.insert(gid) {
                    return fail("group data", format!("group data {gid} was used for another string before"));
                }
                group_of.insert((pos, k), (gid, guses + 1));
                let (cid, cuses) = *cache_of.entry(k).or_insert((c.cache.0, 0));
                if (cid, cuses) != c.cache {
                    return fail("scan cache", format!("rule {} string {pos}: scan cache {:?}, expected {:?}", c.rule, c.cache, (cid, cuses)));
                }
                if cuses == 0 && !caches_seen.insert(cid) {
                    return fail("scan cache", format!("the cache {cid} of another scan was used"));
                }
                cache_of.insert(k, (cid, cuses + 1));
                if c.labels != lab_text {
                    return fail("labels", format!("group data was created with labels {}, the scanner has {lab_text}", c.labels));
                }
                let mut conf = c.config.clone();
                conf.sort();
                let want_conf: Vec<usize> = (0..n).filter(|i| cfgs[*i].as_ref().is_some_and(|c| c.kind == k)).collect();
                if conf != want_conf {
                    return fail("group config", format!("the configuration shared by rules of kind {k} was given rules {conf:?}, expected {want_conf:?}"));
                }
            }
            if seen_calls.len() != want_calls.len() {
                let missing: Vec<_> = want_calls.keys().filter(|k| !seen_calls.contains(k)).collect();
                return fail("call", format!("(string, rule) never called: {missing:?}"));
            }
            // --- what they emitted
            let acts: Vec<Act> = cfgs.iter().map(|c| c.as_ref().map(|c| c.act.clone()).unwrap_or(Act::None)).collect();
            let mut o = ScanOut::default();
            let mut excluded: HashSet<String> = HashSet::new();
            for ((si, i), exc) in &want_calls {
                let c = cfgs[*i].as_ref().unwrap();
                if *exc && c.feed_excluded {
                    for (a, b) in (c.script)(&strings[*si].1) {
                        excluded.insert(strings[*si].1[a..b].to_string());
                    }
                }
            }
            let mut hits = vec![0u64; n];
            for (si, (p, content)) in strings.iter().enumerate() {
                let mut list = vec![];
                for i in 0..n {
                    if want_calls.get(&(si, i)) == Some(&false) {
                        let c = cfgs[i].as_ref().unwrap();
                        for (a, b) in (c.script)(content) {
                            if feats.multipass && c.multipass && excluded.contains(&content[a..b]) {
                                hits[i] += 1;
                            } else {
                                list.push((i, a, b));
                            }
                        }
                    }
                }
                o.touched.push(false);
                o.candidates += list.len();
                model::apply_string(&mut o, si, p, content, list, &acts);
            }
            let unit = if utf16 { model::Unit::Utf16 } else { model::Unit::Utf8 };
            if let Some((s, d)) = diff_acts(&acts, v, &o, unit, &obs) {
                return Outcome::Violated(s, format!("{d}\nblocked {blocked:?}\n{desc}"));
            }
            for i in 0..n {
                if let Some(c) = &cfgs[i] {
                    let h = c.excluded_hits.load(SeqCst);
                    if h != hits[i] {
                        return Outcome::Violated("excluded match callback".into(), format!("rule {i}: called {h} times, expected {}\n{desc}", hits[i]));
                    }
                }
            }
            case.tagn("matches reported", o.matches.len() as u64);
            case.tagn("excluded match callbacks", hits.iter().sum());
        }
    }
    case.tagn("calls checked", calls as u64);
    Outcome::Held(hash_str(&desc), calls > 0)
}

pub fn p23(ctx: &Ctx) {
    ctx.phase("trace", opts(ctx, 80_000, 20.0), contract_case);
    // several scans of one scanner at the same time: data of one scan is not visible to another
    ctx.phase("concurrent", PhaseOpts { cases: ctx.n(150), threads: 2, max_s: ctx.secs(8.0) }, |case| {
        let log: Arc<Mutex<Vec<Call>>> = Default::default();
        let n = case.rng.range(1, 4);
        let cfg: Vec<Arc<dyn RuleConfig>> = (0..n)
            .map(|i| {
                let mut c = ScriptCfg::ranges(Act::None, vec![]);
                c.kind = (i % 2) as u8;
                c.alt = i % 3 == 2;
                c.log = Some(log.clone());
                let d = case.rng.below(60) as u64;
                c.hook = Some(Arc::new(move |_, _| {
                    if d > 40 {
                        std::thread::sleep(Duration::from_micros(d));
                    } else {
                        std::thread::yield_now();
                    }
                }));
                Arc::new(c) as Arc<dyn RuleConfig>
            })
            .collect();
        let s = Scanner::builder(&cfg).build().unwrap();
        let threads = case.rng.range(2, 8);
        let strings = case.rng.range(1, 4);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let s = &s;
                sc.spawn(move || {
                    for r in 0..5 {
                        let v = Val::List((0..strings).map(|i| Val::Str(format!("t{t} r{r} s{i}"))).collect());
                        let _ = observe::<Utf8Encoding>(s, &v, &[]);
                    }
                });
            }
        });
        let log = log.lock().unwrap();
        let mut cache: BTreeMap<(u64, u8), String> = BTreeMap::new();
        let mut group: BTreeMap<(u64, u8), String> = BTreeMap::new();
        let mut by_string: BTreeMap<(String, usize), usize> = BTreeMap::new();
        for c in log.iter() {
            let scan = c.content[..c.content.rfind(' ').unwrap()].to_string();
            let e = cache.entry((c.cache.0, c.kind)).or_insert(scan.clone());
            if *e != scan {
                return Outcome::Violated("scan cache".into(), format!("the scan cache {} was used by scans {e:?} and {scan:?}", c.cache.0));
            }
            let e = group.entry((c.group.0, c.kind)).or_insert(c.content.clone());
            if *e != c.content {
                return Outcome::Violated("group data".into(), format!("group data {} was used for strings {e:?} and {:?}", c.group.0, c.content));
            }
            *by_string.entry((c.content.clone(), c.rule)).or_insert(0) += 1;
        }
        let kinds = if n > 1 { 2 } else { 1 };
        if cache.len() != threads * 5 * kinds || group.len() != threads * 5 * strings * kinds {
            return Outcome::Violated(
                "granularity".into(),
                format!("{} scans of {strings} strings with {kinds} rule kinds used {} scan caches and {} group data", threads * 5, cache.len(), group.len()),
            );
        }
        if by_string.len() != threads * 5 * strings * n || by_string.values().any(|v| *v != 1) {
            return Outcome::Violated("call".into(), format!("calls per (string, rule): {by_string:?}"));
        }
        case.tagn("calls checked", log.len() as u64);
        Outcome::Held(case.rng.next(), true)
    });
}
