//! The native interface (P19), called through its C symbols.
use super::config::wire_rule;
use super::repr::judge_response;
use super::scan::opts;
use crate::alloc::WATCH;
use crate::gen::*;
use crate::model::Features;
use crate::util::*;
use dd_sds::{Scanner, Utf8Encoding};
use dd_sds_go as _;
use std::ffi::{c_char, c_void, CStr, CString};
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn create_regex_rule(json: *const c_char) -> i64;
    fn free_any_rule(rule: i64);
    fn create_rule_list() -> i64;
    fn append_rule_to_list(rule: i64, list: i64);
    fn free_rule_list(list: i64);
    fn create_scanner(rules: i64, error_out: *mut *const c_char, keywords_match_paths: bool) -> i64;
    fn delete_scanner(id: i64);
    fn scan(
        id: i64,
        event: *const c_void,
        size: i64,
        retsize: *mut i64,
        retcap: *mut i64,
        error_out: *mut *const c_char,
    ) -> *const c_char;
    fn free_vec(p: *const c_char, len: i64, cap: i64);
    fn free_string(p: *const c_char);
}

type Bad = (String, String);
fn bad<T>(sig: &str, d: String) -> Result<T, Bad> {
    Err((sig.into(), d))
}

/// One scan through the boundary. Ok(None): nothing matched; Err(text): the reported error.
#[allow(clippy::type_complexity)]
fn call_scan(id: i64, event: &[u8]) -> Result<Result<Option<Vec<u8>>, String>, Bad> {
    let (mut size, mut cap, mut err) = (-7i64, -9i64, std::ptr::null());
    // a copy without spare room, so that reading beyond it is visible to the sanitizer
    let copy: Box<[u8]> = event.into();
    let p = unsafe { scan(id, copy.as_ptr() as *const c_void, copy.len() as i64, &mut size, &mut cap, &mut err) };
    if *copy != *event {
        return bad("input changed", "scan changed its input buffer".into());
    }
    if !err.is_null() {
        let text = unsafe { CStr::from_ptr(err) }.to_string_lossy().into_owned();
        unsafe { free_string(err) };
        if !p.is_null() || size != 0 || cap != 0 {
            return bad("error result", format!("scan failed ({text}) but returned size {size}, capacity {cap}, pointer null: {}", p.is_null()));
        }
        return Ok(Err(text));
    }
    if size == 0 && cap == 0 {
        if !p.is_null() {
            return bad("empty result", "scan returned a pointer with size 0".into());
        }
        return Ok(Ok(None));
    }
    if size <= 0 || cap < size || p.is_null() {
        return bad("result", format!("scan returned size {size}, capacity {cap}, pointer null: {}", p.is_null()));
    }
    let v = unsafe { std::slice::from_raw_parts(p as *const u8, size as usize) }.to_vec();
    unsafe { free_vec(p, size, cap) };
    Ok(Ok(Some(v)))
}

fn make_scanner(list: i64, paths: bool) -> Result<Result<i64, (i64, Option<String>)>, Bad> {
    let mut err = std::ptr::null();
    let id = unsafe { create_scanner(list, &mut err, paths) };
    let text = if err.is_null() {
        None
    } else {
        let t = unsafe { CStr::from_ptr(err) }.to_string_lossy().into_owned();
        unsafe { free_string(err) };
        Some(t)
    };
    if id >= 0 {
        if let Some(t) = text {
            return bad("error with a scanner", format!("create_scanner succeeded and reported an error: {t}"));
        }
        if id == 0 {
            return bad("null scanner", "create_scanner returned 0".into());
        }
        return Ok(Ok(id));
    }
    Ok(Err((id, text)))
}

fn make_rule(json: &str) -> i64 {
    let c = CString::new(json).unwrap();
    unsafe { create_regex_rule(c.as_ptr()) }
}

fn malformed(rng: &mut Rng, good: &[u8]) -> Vec<u8> {
    let mut b = good.to_vec();
    match rng.below(5) {
        0 => b.push(*rng.pick(&[4, 5, 6, 255])),
        1 => b.extend([3, 0xff, 0xff, 0xff, 0xff]),
        2 => b.extend([0, 0, 0]),
        3 => b.extend([3, 0, 0, 0, 9, b'a']),
        _ => b.insert(0, 77),
    }
    b
}

const BAD_RULES: &[(&str, i64)] = &[
    (r#"{"pattern":"ab(c","match_action":{"type":"None"}}"#, -2),
    (r#"{"pattern":"x*","match_action":{"type":"None"}}"#, -2),
    (r#"{"pattern":"x","match_action":{"type":"None"},"proximity_keywords":{"look_ahead_character_count":0}}"#, -3),
    (r#"{"pattern":"x","match_action":{"type":"None"},"proximity_keywords":{"look_ahead_character_count":5,"included_keywords":["toolong"]}}"#, -3),
    (r#"{"pattern":"x","match_action":{"type":"None"},"proximity_keywords":{"look_ahead_character_count":5,"excluded_keywords":["-"]}}"#, -3),
    (r#"{"pattern":"x","match_action":{"type":"PartialRedact","direction":"LastCharacters","character_count":0}}"#, -4),
];
const BAD_JSON: &[&str] = &[
    "",
    "{",
    "null",
    "{}",
    r#"{"pattern":"x"}"#,
    r#"{"pattern":7,"match_action":{"type":"None"}}"#,
    r#"{"pattern":"x","match_action":{"type":"Nope"}}"#,
    r#"{"pattern":"x","match_action":{"type":"None"},"validator":{"type":"Nope"}}"#,
    r#"{"pattern":"x","match_action":{"type":"None"},"labels":[["a"]]}"#,
    r#"{"pattern":"x","match_action":{"type":"None"}} trailing"#,
];

/// A random history of calls that follows the ownership rules.
struct Scn {
    id: i64,
    w: World,
    native: Scanner,
}
struct Hist {
    rules: Vec<(i64, usize)>,
    lists: Vec<(i64, Vec<usize>)>,
    scanners: Vec<Scn>,
}
fn drop_all(h: &mut Hist) {
    for s in h.scanners.drain(..) {
        unsafe { delete_scanner(s.id) };
    }
    for l in h.lists.drain(..) {
        unsafe { free_rule_list(l.0) };
    }
    for r in h.rules.drain(..) {
        unsafe { free_any_rule(r.0) };
    }
}

fn judge_scan(s: &Scn, val: &crate::events::Val) -> Result<usize, Bad> {
    judge_bytes(s, val, &val.to_binary())
}
/// An event whose strings are not all valid UTF-8: scanned as if the invalid parts were replaced.
fn broken_text(rng: &mut Rng, texts: Vec<String>) -> (crate::events::Val, Vec<u8>) {
    let mut out = vec![];
    let mut m: Vec<(String, crate::events::Val)> = vec![];
    for (i, t) in texts.into_iter().enumerate() {
        let mut b = t.into_bytes();
        for _ in 0..rng.range(1, 3) {
            let at = rng.below(b.len() + 1);
            b.insert(at, *rng.pick(&[0xff, 0xc3, 0xe2, 0x80, 0xf0, 0xed]));
        }
        let key = format!("k{i}");
        out.push(0);
        out.extend((key.len() as u32).to_be_bytes());
        out.extend(key.as_bytes());
        out.push(3);
        out.extend((b.len() as u32).to_be_bytes());
        out.extend(&b);
        out.push(2);
        m.push((key, crate::events::Val::Str(String::from_utf8_lossy(&b).into_owned())));
    }
    (crate::events::Val::Map(m), out)
}
fn judge_bytes(s: &Scn, val: &crate::events::Val, bytes: &[u8]) -> Result<usize, Bad> {
    let reference = match observe::<Utf8Encoding>(&s.native, val, &[]) {
        Ok(o) => o,
        Err((a, b)) => return Err((a, b)),
    };
    let w = World {
        val: val.clone(),
        ..s.w.clone()
    };
    match call_scan(s.id, bytes)? {
        Err(e) => bad("scan error", format!("scanning a well-formed event failed: {e}\n{}", w.describe())),
        Ok(None) => {
            if !reference.matches.is_empty() {
                return bad("matches lost", format!("no result, the library reports\n{}{}", show_matches(&reference.matches), w.describe()));
            }
            Ok(0)
        }
        Ok(Some(b)) => match judge_response(&w, &reference, &b) {
            Some(d) => bad("result", format!("{d}\n{}", w.describe())),
            None => Ok(reference.matches.len()),
        },
    }
}

fn history(rng: &mut Rng, k: &Knobs, steps: usize, tags: &mut dyn FnMut(&str)) -> Result<String, Bad> {
    let w = gen_world(rng, k);
    let mut log = String::new();
    let mut h = Hist {
        rules: vec![],
        lists: vec![],
        scanners: vec![],
    };
    let r = history_steps(rng, k, &w, steps, &mut h, &mut log, tags);
    drop_all(&mut h);
    r?;
    if let Some(f) = WATCH.fault() {
        return bad("memory", format!("{f}\nafter the calls {log}"));
    }
    Ok(log)
}

fn history_steps(
    rng: &mut Rng,
    k: &Knobs,
    w: &World,
    steps: usize,
    h: &mut Hist,
    log: &mut String,
    tags: &mut dyn FnMut(&str),
) -> Result<(), Bad> {
    for _ in 0..steps {
        match rng.below(16) {
            0..=2 => {
                log.push('r');
                let i = rng.below(w.rules.len());
                let json = wire_rule(rng, &w.rules[i], &[]).to_string();
                let p = make_rule(&json);
                if p <= 0 {
                    return bad("rule rejected", format!("create_regex_rule returned {p} for {json}"));
                }
                h.rules.push((p, i));
                tags("rules created");
            }
            3 => {
                log.push('l');
                let p = unsafe { create_rule_list() };
                if p <= 0 {
                    return bad("list", format!("create_rule_list returned {p}"));
                }
                h.lists.push((p, vec![]));
                tags("lists created");
            }
            4 | 5 => {
                if !h.rules.is_empty() && !h.lists.is_empty() {
                    log.push('a');
                    let l = rng.below(h.lists.len());
                    let times = if rng.chance(1, 12) { rng.range(8, 90) } else { 1 };
                    for _ in 0..times {
                        let (p, i) = *rng.pick(&h.rules);
                        unsafe { append_rule_to_list(p, h.lists[l].0) };
                        h.lists[l].1.push(i);
                    }
                    if times > 1 {
                        tags("long rule lists");
                    }
                }
            }
            6 => {
                if !h.rules.is_empty() {
                    log.push('R');
                    let i = rng.below(h.rules.len());
                    let (p, _) = h.rules.swap_remove(i);
                    unsafe { free_any_rule(p) };
                }
            }
            7 => {
                if !h.lists.is_empty() && rng.chance(1, 2) {
                    log.push('L');
                    let i = rng.below(h.lists.len());
                    let (p, _) = h.lists.swap_remove(i);
                    unsafe { free_rule_list(p) };
                }
            }
            8 | 9 => {
                if !h.lists.is_empty() {
                    log.push('s');
                    let l = rng.below(h.lists.len());
                    if h.lists[l].1.is_empty() && !h.rules.is_empty() && rng.chance(5, 6) {
                        for _ in 0..rng.range(1, 4) {
                            let (p, i) = *rng.pick(&h.rules);
                            unsafe { append_rule_to_list(p, h.lists[l].0) };
                            h.lists[l].1.push(i);
                        }
                    }
                    let paths = rng.chance(1, 2);
                    let rules: Vec<_> = h.lists[l].1.iter().map(|i| w.rules[*i].clone()).collect();
                    let feats = Features {
                        path_keywords: paths,
                        ..Features::default()
                    };
                    let native = build_scanner(&rules, feats);
                    match (make_scanner(h.lists[l].0, paths)?, native) {
                        (Ok(id), Ok(native)) => {
                            h.scanners.push(Scn {
                                id,
                                w: World {
                                    rules,
                                    feats,
                                    val: w.val.clone(),
                                    blocked: vec![],
                                },
                                native,
                            });
                            tags("scanners created");
                        }
                        (Err((c, _)), Err(e)) => {
                            let want: i64 = e.into();
                            if c != want {
                                return bad("code", format!("create_scanner returned {c}, expected {want}"));
                            }
                        }
                        (Ok(id), Err(e)) => {
                            unsafe { delete_scanner(id) };
                            return bad("accepted", format!("create_scanner accepts what the library rejects: {e}"));
                        }
                        (Err(c), Ok(_)) => return bad("rejected", format!("create_scanner returned {c:?} for rules that the library accepts")),
                    }
                }
            }
            10 | 11 => {
                for _ in 0..3 {
                    if h.scanners.is_empty() {
                        break;
                    }
                    log.push('x');
                    let s = rng.pick(&h.scanners);
                    let mut hot = vec![];
                    let n = rng.range(1, 3);
                    let rules = if s.w.rules.is_empty() { &w.rules } else { &s.w.rules };
                    let mut contents: Vec<String> = (0..n).map(|_| gen_content(rng, rules, k, &mut hot)).collect();
                    if rng.chance(1, 8) {
                        let times = rng.range(20, 120);
                        for c in contents.iter_mut() {
                            *c = format!("{c} ").repeat(times);
                        }
                    }
                    let val = if rng.chance(1, 4) {
                        w.val.clone()
                    } else {
                        crate::events::gen_tree(rng, &mut contents, 2, k.keys)
                    };
                    if rng.chance(1, 6) {
                        let mut texts: Vec<String> = val.strings().into_iter().map(|x| x.1).collect();
                        texts.extend((0..rng.below(2)).map(|_| rng.word(&["", "a", "x1"]).to_string()));
                        let (val, bytes) = broken_text(rng, texts);
                        judge_bytes(s, &val, &bytes)?;
                        tags("scans of invalid UTF-8");
                    }
                    if judge_scan(s, &val)? > 0 {
                        tags("scans with matches");
                    } else {
                        tags("scans without matches");
                    }
                }
            }
            12 => {
                if !h.scanners.is_empty() && rng.chance(1, 2) {
                    log.push('S');
                    let i = rng.below(h.scanners.len());
                    let s = h.scanners.swap_remove(i);
                    unsafe { delete_scanner(s.id) };
                }
            }
            13 => {
                if !h.scanners.is_empty() {
                    log.push('m');
                    let s = rng.pick(&h.scanners);
                    let b = malformed(rng, &w.val.to_binary());
                    // the error is what the library says
                    let text = guarded(|| {
                        let mut e = sds_bindings_utils::BinaryEvent::<Utf8Encoding>::new(b.clone(), false);
                        s.native.scan(&mut e, vec![]).len()
                    });
                    match call_scan(s.id, &b)? {
                        Err(t) if !t.is_empty() => match text {
                            Err(p) if p.msg != t && !p.msg.contains('\0') => {
                                return bad("error text", format!("scan failed with {t:?}, the library with {:?}", p.msg));
                            }
                            _ => tags("malformed events rejected"),
                        },
                        r => return bad("malformed", format!("a malformed event gives {r:?}: {b:?}")),
                    }
                    // the scanner is still usable
                    judge_scan(s, &w.val)?;
                }
            }
            14 => {
                log.push('j');
                let j = rng.word(BAD_JSON);
                let p = make_rule(j);
                if p >= 0 {
                    return bad("bad json", format!("create_regex_rule returned {p} for {j}"));
                }
                tags("malformed rules rejected");
            }
            _ => {
                log.push('f');
                let (j, want) = *rng.pick(BAD_RULES);
                let l = unsafe { create_rule_list() };
                let good = make_rule(r#"{"pattern":"abc","match_action":{"type":"None"}}"#);
                let p = make_rule(j);
                if p <= 0 || good <= 0 {
                    return bad("rule rejected", format!("create_regex_rule returned {p} for {j}"));
                }
                unsafe {
                    append_rule_to_list(good, l);
                    append_rule_to_list(p, l);
                    free_any_rule(good);
                    free_any_rule(p);
                }
                let r = make_scanner(l, false)?;
                // the list can still be used after a failed build
                let r2 = make_scanner(l, true)?;
                unsafe { free_rule_list(l) };
                for r in [r, r2] {
                    match r {
                        Err((c, _)) if c == want => {}
                        Err((c, t)) => return bad("code", format!("create_scanner returned {c} ({t:?}), expected {want}: {j}")),
                        Ok(id) => {
                            unsafe { delete_scanner(id) };
                            return bad("accepted", format!("create_scanner accepts {j}"));
                        }
                    }
                }
                tags("scanners rejected");
            }
        }
    }
    Ok(())
}

fn knobs() -> Knobs {
    Knobs {
        rules: (1, 4),
        mutate: 60,
        depth: 2,
        strings: (1, 4),
        scope: 25,
        inc: 25,
        exc: 25,
        validator: 15,
        simple: 80,
        repeat: 10,
        ..Knobs::default()
    }
}
/// The Utf16 hash is not compiled into the native library of a release; it is in this build, so
/// nothing needs to be left out here.
fn history_case(case: &mut Case) -> Outcome {
    let k = knobs();
    let steps = case.rng.range(10, 60);
    let mut rng = case.rng.clone();
    let mut t: Vec<String> = vec![];
    let r = history(&mut rng, &k, steps, &mut |x| t.push(x.to_string()));
    for x in &t {
        case.tag(x);
    }
    match r {
        Ok(log) => {
            let calls = log.len() as u64;
            case.tagn("calls", calls);
            Outcome::Held(hash_str(&log), t.iter().any(|x| x.starts_with("scans")))
        }
        Err((s, d)) => Outcome::Violated(s, d),
    }
}

/// The same history again and again: the number of live blocks must not keep growing.
fn leak_case(case: &mut Case) -> Outcome {
    if !WATCH.enabled() {
        return Outcome::Abstain("the allocation monitor is off");
    }
    let k = knobs();
    let steps = case.rng.range(8, 50);
    let rng0 = case.rng.clone();
    let mut live: Vec<(usize, usize)> = vec![];
    let mut log = String::new();
    let mut rounds = 60;
    loop {
        while live.len() < rounds {
            let mut rng = rng0.clone();
            match history(&mut rng, &k, steps, &mut |_| {}) {
                Ok(l) => log = l,
                Err((s, d)) => return Outcome::Violated(s, d),
            }
            live.push((WATCH.live.load(Ordering::SeqCst), WATCH.live_bytes.load(Ordering::SeqCst)));
        }
        // Caches and registries settle, in steps: their slots are permuted and filled over the rounds.
        // A leak adds at least one block in every round.
        let tail = &live[rounds / 3..];
        let grew = tail.windows(2).filter(|w| w[1].0 > w[0].0).count();
        if grew * 10 < (tail.len() - 1) * 9 {
            break;
        }
        if rounds > 200 {
            let (mid, end) = (tail[0], tail[tail.len() - 1]);
            return Outcome::Violated(
                "leak".into(),
                format!(
                    "{} more live blocks ({} bytes) after {} repetitions of the calls {log}; the number grew in {grew} of them",
                    end.0 as i64 - mid.0 as i64,
                    end.1 as i64 - mid.1 as i64,
                    tail.len() - 1
                ),
            );
        }
        rounds = 300;
    }
    let end = live[rounds - 1];
    case.tagn("repeated histories", rounds as u64);
    case.tagn("live blocks at the end", end.0 as u64);
    Outcome::Held(hash_str(&log), log.len() > 3)
}

/// Several threads use the same scanner handle, while others create and delete their own.
fn threads_case(case: &mut Case) -> Outcome {
    let k = knobs();
    let mut rng = case.rng.clone();
    let mut w = gen_world(&mut rng, &k);
    w.feats = Features::default();
    w.blocked = vec![];
    let Ok(native) = build_scanner(&w.rules, w.feats) else {
        return Outcome::Abstain("the rules are not accepted");
    };
    let list = unsafe { create_rule_list() };
    for r in &w.rules {
        let p = make_rule(&wire_rule(&mut rng, r, &[]).to_string());
        if p <= 0 {
            return Outcome::Violated("rule rejected".into(), format!("create_regex_rule returned {p}"));
        }
        unsafe {
            append_rule_to_list(p, list);
            free_any_rule(p);
        }
    }
    let id = match make_scanner(list, false) {
        Ok(Ok(id)) => id,
        Ok(Err(c)) => return Outcome::Violated("rejected".into(), format!("create_scanner returned {c:?}\n{}", w.describe())),
        Err((s, d)) => return Outcome::Violated(s, d),
    };
    unsafe { free_rule_list(list) };
    let s = Scn { id, w, native };
    let inside = AtomicUsize::new(0);
    let overlap = AtomicUsize::new(0);
    let found: Vec<Option<Bad>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (s, inside, overlap, k) = (&s, &inside, &overlap, &k);
                let mut rng = Rng::new(rng.clone().next() ^ t);
                sc.spawn(move || {
                    for _ in 0..12 {
                        if inside.fetch_add(1, Ordering::SeqCst) > 0 {
                            overlap.fetch_add(1, Ordering::SeqCst);
                        }
                        let r = match rng.below(5) {
                            0 => history(&mut rng, k, 8, &mut |_| {}).map(|_| 0),
                            1 => {
                                let b = malformed(&mut rng, &s.w.val.to_binary());
                                match call_scan(s.id, &b) {
                                    Ok(Err(_)) => Ok(0),
                                    Ok(r) => bad("malformed", format!("a malformed event gives {r:?}")),
                                    Err(e) => Err(e),
                                }
                            }
                            _ => {
                                let mut hot = vec![];
                                let mut c = vec![gen_content(&mut rng, &s.w.rules, k, &mut hot)];
                                let val = crate::events::gen_tree(&mut rng, &mut c, 2, k.keys);
                                judge_scan(s, &val)
                            }
                        };
                        inside.fetch_sub(1, Ordering::SeqCst);
                        if let Err(e) = r {
                            return Some(e);
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    unsafe { delete_scanner(s.id) };
    for f in found.into_iter().flatten() {
        return Outcome::Violated(f.0, f.1);
    }
    if let Some(f) = WATCH.fault() {
        return Outcome::Violated("memory".into(), f);
    }
    let n = overlap.load(Ordering::SeqCst) as u64;
    case.tagn("calls overlapping another thread's", n);
    Outcome::Held(hash_str(&s.w.describe()), n > 0)
}

pub fn p19(ctx: &Ctx) {
    if std::env::var("SDS_NO_WATCH").is_err() {
        WATCH.enable();
    }
    let one = |cases: u64, s: f64| PhaseOpts {
        threads: 1,
        ..opts(ctx, cases, s)
    };
    ctx.phase("leaks", one(60, 12.0), leak_case);
    ctx.phase("histories", opts(ctx, 1_500, 15.0), history_case);
    ctx.phase("threads", one(60, 10.0), threads_case);
    if WATCH.enabled() {
        let n = |x: &AtomicUsize| x.load(Ordering::SeqCst);
        ctx.extra(
            "allocation_monitor",
            serde_json::json!({"allocations": n(&WATCH.allocs), "frees": n(&WATCH.frees), "live": n(&WATCH.live)}),
        );
    }
}
