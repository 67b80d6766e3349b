//! The Go package (P20): a worker process uses it as a program would, the library is the oracle.
use super::config::make;
use super::scan::opts;
use crate::events::{gen_tree, Val};
use crate::gen::*;
use crate::model::{Act, Features, MRule};
use crate::util::*;
use dd_sds::{CreateScannerError, MatchAction, PartialRedactDirection, RegexRuleConfig, ReplacementType, RuleMatch, Scanner};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

macro_rules! bad {
    ($sig:expr, $($a:tt)*) => { return Outcome::Violated($sig.into(), format!($($a)*)) };
}

struct Worker {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
    errors: String,
}
static POOL: Mutex<Vec<Worker>> = Mutex::new(Vec::new());

fn worker() -> Result<Worker, String> {
    if let Some(w) = POOL.lock().unwrap().pop() {
        return Ok(w);
    }
    static N: AtomicU64 = AtomicU64::new(0);
    let errors = format!("/verif/target/go/stderr.{}.{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
    let f = std::fs::File::create(&errors).map_err(|e| e.to_string())?;
    let mut child = Command::new("/verif/target/go/worker")
        .env("GORACE", "halt_on_error=1 exitcode=66")
        .env("GODEBUG", "cgocheck=1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(f)
        .spawn()
        .map_err(|e| format!("no Go worker: {e}"))?;
    Ok(Worker { tx: child.stdin.take().unwrap(), rx: BufReader::new(child.stdout.take().unwrap()), child, errors })
}
/// Ok(Err(_)): the worker died.
fn ask(q: &Value) -> Result<Result<Value, String>, String> {
    let mut w = worker()?;
    let mut line = serde_json::to_vec(q).unwrap();
    line.push(b'\n');
    let mut answer = String::new();
    let sent = w.tx.write_all(&line).and_then(|_| w.tx.flush());
    if sent.is_ok() && w.rx.read_line(&mut answer).unwrap_or(0) > 0 {
        let mut reader = serde_json::Deserializer::from_str(&answer);
        reader.disable_recursion_limit();
        let v = reader.into_iter::<Value>().next().ok_or("the worker answered nothing")?;
        let v = v.map_err(|e| format!("worker answer: {e}"))?;
        POOL.lock().unwrap().push(w);
        return Ok(Ok(v));
    }
    drop(w.tx);
    let status = w.child.wait().map_err(|e| e.to_string())?;
    let text = std::fs::read_to_string(&w.errors).unwrap_or_default();
    let _ = std::fs::remove_file(&w.errors);
    if status.code() == Some(3) {
        return Err(format!("worker: {text}"));
    }
    Ok(Err(format!("the Go process ended with {status}: {}", text.chars().take(3000).collect::<String>())))
}
fn stop_workers() {
    for mut w in POOL.lock().unwrap().drain(..) {
        drop(w.tx);
        let _ = w.child.wait();
        let _ = std::fs::remove_file(&w.errors);
    }
}

fn hex(s: &[u8]) -> String {
    s.iter().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Event values as Go programs hold them: byte strings, and values of unsupported types.
#[derive(Clone, Debug)]
enum G {
    S(Vec<u8>),
    L(Vec<G>),
    M(BTreeMap<Vec<u8>, G>),
    X(&'static str),
}
impl G {
    fn of(v: &Val) -> G {
        match v {
            Val::Str(s) => G::S(s.clone().into_bytes()),
            Val::List(l) => G::L(l.iter().map(G::of).collect()),
            Val::Map(m) => G::M(m.iter().map(|(k, v)| (k.clone().into_bytes(), G::of(v))).collect()),
        }
    }
    fn json(&self) -> Value {
        match self {
            G::S(s) => json!({ "s": hex(s) }),
            G::L(l) => json!({ "l": l.iter().map(G::json).collect::<Vec<_>>() }),
            G::M(m) => json!({ "m": m.iter().map(|(k, v)| json!([hex(k), v.json()])).collect::<Vec<_>>() }),
            G::X(x) => json!({ "x": x }),
        }
    }
    /// What the library sees (keys are valid here).
    fn val(&self) -> Val {
        match self {
            G::S(s) => Val::Str(String::from_utf8_lossy(s).into_owned()),
            G::L(l) => Val::List(l.iter().map(G::val).collect()),
            G::M(m) => Val::Map(m.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), v.val())).collect()),
            G::X(_) => unreachable!(),
        }
    }
    /// Visits the strings in the order of `val().strings()`.
    fn leaves(&mut self, f: &mut impl FnMut(&mut G)) {
        match self {
            G::S(_) | G::X(_) => f(self),
            G::L(l) => l.iter_mut().for_each(|x| x.leaves(f)),
            G::M(m) => m.values_mut().for_each(|x| x.leaves(f)),
        }
    }
    fn bad_key(&self) -> bool {
        match self {
            G::M(m) => m.iter().any(|(k, v)| std::str::from_utf8(k).is_err() || v.bad_key()),
            G::L(l) => l.iter().any(|x| x.bad_key()),
            _ => false,
        }
    }
    fn unsupported(&self) -> bool {
        match self {
            G::M(m) => m.values().any(|v| v.unsupported()),
            G::L(l) => l.iter().any(|x| x.unsupported()),
            G::X(_) => true,
            _ => false,
        }
    }
}

fn type_name(t: &ReplacementType) -> &'static str {
    match t {
        ReplacementType::None => "none",
        ReplacementType::Placeholder => "placeholder",
        ReplacementType::Hash => "hash",
        ReplacementType::PartialStart => "partial_beginning",
        ReplacementType::PartialEnd => "partial_end",
    }
}
fn show_lib(m: &RuleMatch) -> String {
    format!("rule {} path {:?} {} {}..{} shift {}", m.rule_index, m.path.to_string(), type_name(&m.replacement_type), m.start_index, m.end_index_exclusive, m.shift_offset)
}
fn show_go(m: &Value) -> String {
    format!(
        "rule {} path {:?} {} {}..{} shift {}",
        m["rule"],
        String::from_utf8_lossy(&unhex(m["path"].as_str().unwrap())),
        m["type"].as_str().unwrap(),
        m["start"],
        m["end"],
        m["shift"]
    )
}

/// The rule as the Go constructors take it. None: not expressible.
fn go_rule(c: &RegexRuleConfig, id: &str) -> Option<Value> {
    let h = |s: &String| hex(s.as_bytes());
    let mut v = json!({"id": hex(id.as_bytes()), "pattern": h(&c.pattern), "value": "", "count": 0, "direction": "", "kw": null, "validator": ""});
    match &c.match_action {
        MatchAction::None => v["kind"] = json!("match"),
        MatchAction::Redact { replacement } => {
            v["kind"] = json!("redact");
            v["value"] = json!(h(replacement));
        }
        MatchAction::Hash => v["kind"] = json!("hash"),
        MatchAction::PartialRedact { direction, character_count } => {
            v["kind"] = json!("partial");
            v["count"] = json!(u32::try_from(*character_count).ok()?);
            v["direction"] = json!(match direction {
                PartialRedactDirection::FirstCharacters => "FirstCharacters",
                PartialRedactDirection::LastCharacters => "LastCharacters",
            });
        }
        #[allow(unreachable_patterns)]
        _ => return None,
    }
    if let Some(k) = &c.proximity_keywords {
        let list = |l: &Vec<String>| if l.is_empty() { Value::Null } else { json!(l.iter().map(h).collect::<Vec<_>>()) };
        v["kw"] = json!({"n": k.look_ahead_character_count, "inc": list(&k.included_keywords), "exc": list(&k.excluded_keywords)});
    }
    if let Some(x) = &c.validator {
        v["validator"] = json!(format!("{x:?}"));
    }
    Some(v)
}

const IDS: &[&str] = &["", "rule", "é", "a\"b\\c", "<&>\u{2028}", "x\u{0}y"];

/// What the library says about creating a scanner, as the Go package names it.
fn kind_of(e: &CreateScannerError) -> &'static str {
    match e {
        CreateScannerError::InvalidRegex(_) => "regex",
        CreateScannerError::InvalidKeywords(_) => "keywords",
        CreateScannerError::InvalidMatchAction(_) => "action",
        _ => "unknown",
    }
}

fn create_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    let trouble = *rng.pick(&[0, 10, 25]);
    let n = rng.range(1, 4);
    let mut rules = vec![];
    let mut go = vec![];
    for _ in 0..n {
        let mut m = make(rng, trouble).cfg;
        m.match_validation_type = None;
        m.scope = Default::default();
        let id = rng.word(IDS).to_string();
        let Some(g) = go_rule(&m, &id) else { return Outcome::Abstain("not expressible in Go") };
        go.push(g);
        rules.push(m.build() as _);
    }
    // values that no rule may have
    let broken = rng.chance(1, 12);
    if broken {
        let i = rng.below(n);
        if rng.chance(1, 2) {
            go[i]["validator"] = json!("NoSuchChecksum");
        } else {
            go[i]["kind"] = json!("partial");
            go[i]["direction"] = json!(rng.word(&["", "Middle", "firstcharacters"]));
        }
    }
    let lib = Scanner::builder(&rules).build();
    let q = json!({"rules": go, "events": [], "rounds": 1, "parallel": false});
    let a = match ask(&q) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => bad!("crash", "{e}\n{q}"),
        Err(e) => {
            case.ctx.infra(e);
            return Outcome::Abstain("no worker");
        }
    };
    if !a["panic"].is_null() {
        bad!("panic", "{}\n{q}", a["panic"]);
    }
    match (broken, &lib, a["create"].as_str()) {
        (true, _, Some(t)) if a["kind"] == "other" && t.contains("create regex rule") => case.tag("malformed rules rejected"),
        (true, _, t) => bad!("malformed", "a rule with unknown values gives {t:?} ({})\n{q}", a["kind"]),
        (_, Ok(_), None) => {
            if a["configs"] != json!(n) {
                bad!("configs", "the scanner keeps {} configurations of {n}", a["configs"]);
            }
            case.tag("accepted configurations")
        }
        (_, Ok(_), Some(t)) => bad!("rejected", "the library accepts, Go says {t}\n{q}"),
        (_, Err(e), None) => bad!("accepted", "the library says {e}, Go accepts\n{q}"),
        (_, Err(e), Some(t)) => {
            if a["kind"] != kind_of(e) {
                bad!("error", "the library says {e:?}, Go says {t:?}\n{q}");
            }
            case.tag(&format!("rejected: {}", kind_of(e)));
        }
    }
    Outcome::Held(hash_str(&q.to_string()), true)
}

fn gen_bytes(rng: &mut Rng, s: String) -> Vec<u8> {
    let s = if rng.chance(1, 40) {
        // long values, mostly many matches
        let len = *rng.pick(&[300, 5_000, 5_000, 20_000, 70_000]);
        let n = (len / (s.len() + 1)).min(6_000);
        format!("{s} ").repeat(n + 1)
    } else {
        s
    };
    let mut b = s.into_bytes();
    if rng.chance(1, 24) {
        b.extend(*rng.pick(&[&b"\0"[..], b"\n", b" ", b"\0\0", b"\r\n"]));
    }
    if rng.chance(1, 10) {
        for _ in 0..rng.range(1, 3) {
            let at = rng.below(b.len() + 1);
            b.insert(at, *rng.pick(&[0xffu8, 0xc3, 0xe2, 0x80, 0xf0]));
        }
    }
    b
}

fn scan_case(case: &mut Case, k: &Knobs) -> Outcome {
    let rng = &mut case.rng;
    let mut w = gen_world(rng, k);
    w.feats = Features { path_keywords: false, implicit_wildcards: false, multipass: true };
    for r in w.rules.iter_mut() {
        if r.act == Act::Utf16Hash {
            r.act = Act::Hash;
        }
        r.scope = crate::model::MScope::all();
        if let Act::Redact(t) = &mut r.act {
            if rng.chance(1, 4) {
                *t = rng.word(&["<&>\"\\", "\u{2028}", "a\u{0}b", "\t\n", "😀"]).to_string();
            }
        }
    }
    let rules: &[MRule] = &w.rules;
    let Ok(scanner) = build_scanner(rules, w.feats) else { return Outcome::Abstain("rejected pattern") };
    let go: Vec<Value> = match rules.iter().map(|r| go_rule(&r.to_config(), rng.word(IDS))).collect::<Option<Vec<_>>>() {
        Some(g) => g,
        None => return Outcome::Abstain("not expressible in Go"),
    };

    // events
    let n = rng.range(1, 5);
    let mut evs: Vec<(Option<Vec<u8>>, Option<G>)> = vec![];
    for i in 0..n {
        let mut hot = vec![];
        if i == 0 {
            if let v @ Val::Map(_) = &w.val {
                evs.push((None, Some(G::of(v))));
                continue;
            }
        }
        if rng.chance(1, 3) {
            let c = gen_content(rng, rules, k, &mut hot);
            evs.push((Some(gen_bytes(rng, c)), None));
            continue;
        }
        let m = rng.range(1, 5);
        let mut contents: Vec<String> = (0..m).map(|_| gen_content(rng, rules, k, &mut hot)).collect();
        let keys = k.keys;
        let mut root: Vec<(String, Val)> = vec![];
        for _ in 0..rng.range(0, 3) {
            let key = rng.word(keys).to_string();
            if !root.iter().any(|x| x.0 == key) {
                let d = rng.range(0, 3);
                root.push((key, gen_tree(rng, &mut contents, d, keys)));
            }
        }
        let mut g = G::of(&Val::Map(root));
        g.leaves(&mut |l| {
            if let G::S(s) = l {
                let t = String::from_utf8(std::mem::take(s)).unwrap();
                *s = gen_bytes(rng, t);
            }
        });
        match rng.below(14) {
            0 => {
                // a value of a type that events cannot have
                let mut all = 0;
                g.leaves(&mut |_| all += 1);
                let (pick, mut at) = (rng.below(all.max(1)), 0);
                let x = rng.word(&["nil", "int", "float", "bool", "bytes", "strings", "stringmap", "struct"]);
                g.leaves(&mut |l| {
                    if at == pick {
                        *l = G::X(x);
                    }
                    at += 1;
                });
            }
            1 => {
                // a key that is not valid text, next to the others
                if let G::M(m) = &mut g {
                    let t = gen_content(rng, rules, k, &mut hot);
                    let mut key = rng.word(keys).as_bytes().to_vec();
                    key.push(*rng.pick(&[0xff, 0xc3]));
                    if rng.chance(1, 2) {
                        m.insert(key, G::S(t.into_bytes()));
                    } else {
                        m.insert(b"in".to_vec(), G::L(vec![G::M([(key, G::S(t.into_bytes()))].into())]));
                    }
                }
            }
            _ => {}
        }
        evs.push((None, Some(g)));
    }
    let q = json!({
        "rules": go,
        "events": evs.iter().map(|(b, t)| match (b, t) {
            (Some(b), _) => json!({"bytes": hex(b)}),
            (_, Some(t)) => json!({"tree": t.json()}),
            _ => unreachable!(),
        }).collect::<Vec<_>>(),
        "rounds": rng.range(1, 2),
        "parallel": rng.chance(1, 2),
    });
    let a = match ask(&q) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => bad!("crash", "{e}\n{}\n{q}", w.describe()),
        Err(e) => {
            case.ctx.infra(e);
            return Outcome::Abstain("no worker");
        }
    };
    if !a["panic"].is_null() || !a["create"].is_null() {
        bad!("create", "panic {} error {}\n{}", a["panic"], a["create"], w.describe());
    }
    let (mut total, mut maps, mut mutated) = (0u64, 0, 0);
    for (i, (bytes, tree)) in evs.iter().enumerate() {
        let r = &a["results"][i];
        let show = || format!("event {i}: {:?} {:?}\n{}", bytes.as_ref().map(|b| String::from_utf8_lossy(b)), tree, w.describe());
        if !r["panic"].is_null() {
            bad!("panic", "Go panicked: {}\n{}", r["panic"], show());
        }
        let refused = tree.as_ref().map_or(false, |t| t.bad_key() || t.unsupported());
        match (refused, r["err"].as_str()) {
            (true, Some(_)) => {
                // nothing may have been touched
                let t = tree.as_ref().unwrap();
                let after = &r["tree"];
                if !t.unsupported() && *after != t.json() {
                    bad!("refused-changed", "a refused event was changed to {after}\n{}", show());
                }
                if r["mutated"] != json!(false) || !r["matches"].is_null() {
                    bad!("refused-result", "a refused event has a result: {r}\n{}", show());
                }
                case.tag("refused events");
                continue;
            }
            (true, None) => bad!("unsupported-accepted", "no error for an event that cannot be represented: {r}\n{}", show()),
            (false, Some(e)) => bad!("error", "Go reports {e}\n{}", show()),
            (false, None) => {}
        }
        let val = match (bytes, tree) {
            (Some(b), _) => Val::Str(String::from_utf8_lossy(b).into_owned()),
            (_, Some(t)) => t.val(),
            _ => unreachable!(),
        };
        let obs = match observe::<dd_sds::Utf8Encoding>(&scanner, &val, &[]) {
            Ok(o) => o,
            Err((s, d)) => bad!(s, "{d}"),
        };
        let want: Vec<String> = obs.matches.iter().map(show_lib).collect();
        let got: Vec<String> = r["matches"].as_array().map(|l| l.iter().map(show_go).collect()).unwrap_or_default();
        total += got.len() as u64;
        if bytes.is_some() {
            if want != got {
                bad!("matches", "library {want:#?}\nGo {got:#?}\n{}", show());
            }
        } else {
            // the order of the fields is not defined in Go; within a string it is
            let group = |v: &[String]| {
                let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
                for x in v {
                    let p = x.split(" path ").nth(1).unwrap();
                    // (paths are quoted)
                    let end = p.rfind('"').unwrap();
                    m.entry(p[..end].to_string()).or_default().push(x.clone());
                }
                m
            };
            let (mut gw, mut gg) = (group(&want), group(&got));
            // different paths may be written the same way
            let mut names: Vec<String> = val.strings().iter().map(|s| s.0.to_string()).collect();
            names.sort();
            if names.windows(2).any(|w| w[0] == w[1]) {
                gw.values_mut().chain(gg.values_mut()).for_each(|v| v.sort());
            }
            if gw != gg {
                bad!("matches", "library {want:#?}\nGo {got:#?}\n{}", show());
            }
        }
        // strings
        let before = val.strings();
        let after = obs.val.strings();
        let mut acted_on = std::collections::HashSet::new();
        let mut last = None;
        for m in obs.matches.iter().filter(|m| rules[m.rule_index].act != Act::None) {
            if last != Some(&m.path) {
                acted_on.insert(m.path.to_string());
                last = Some(&m.path);
            }
        }
        let acted = |p: &str| acted_on.contains(p);
        let changed = before.iter().zip(&after).any(|(a, b)| a.1 != b.1);
        let any_acted = obs.matches.iter().any(|m| rules[m.rule_index].act != Act::None);
        let flag = r["mutated"] == json!(true);
        if (changed && !flag) || (flag && !any_acted) {
            bad!("mutated-flag", "mutated is {flag}, text changed: {changed}\n{}", show());
        }
        mutated += flag as u64;
        match (bytes, tree) {
            (Some(b), _) => {
                let want: &[u8] = if flag { after[0].1.as_bytes() } else { b };
                let got = r["event"].as_str().map(unhex).unwrap_or_default();
                if got != want {
                    bad!("event", "the library makes {:?} of the event, Go {:?}\n{}", String::from_utf8_lossy(want), String::from_utf8_lossy(&got), show());
                }
                if !r["input"].is_null() {
                    bad!("input", "Scan changed the bytes of its argument\n{}", show());
                }
            }
            (_, Some(t)) => {
                maps += 1;
                let mut want = t.clone();
                let mut j = 0;
                let mut results: Vec<Vec<u8>> = vec![];
                want.leaves(&mut |l| {
                    if let G::S(s) = l {
                        if before[j].1 != after[j].1 || acted(&before[j].0.to_string()) && String::from_utf8_lossy(s) == String::from_utf8(s.clone()).unwrap_or_default() {
                            *s = after[j].1.clone().into_bytes();
                            results.push(s.clone());
                        }
                    }
                    j += 1;
                });
                // (a string whose replacement equals the text it replaces may be normalised or not)
                if r["tree"] != want.json() {
                    let ambiguous = before.iter().zip(&after).any(|(a, b)| a.1 == b.1 && acted(&a.0.to_string()));
                    if !ambiguous {
                        bad!("event", "expected {}\ngot {}\n{}", want.json(), r["tree"], show());
                    }
                }
                match r["event"].as_str().map(unhex) {
                    None if flag && !results.iter().any(|x| x.is_empty()) => bad!("event-text", "mutated without a text\n{}", show()),
                    Some(e) if !flag => bad!("event-text", "not mutated, but the text is {e:?}\n{}", show()),
                    Some(e) if !results.is_empty() && !results.contains(&e) => bad!("event-text", "the text {:?} is no string of the result\n{}", String::from_utf8_lossy(&e), show()),
                    _ => {}
                }
            }
            _ => unreachable!(),
        }
    }
    case.tagn("matches decoded", total);
    case.tagn("map events", maps);
    case.tagn("mutated events", mutated);
    if case.sample.is_none() && total > 0 {
        case.sample = Some(json!({"rules": rules.len(), "events": evs.len(), "matches": total, "first": a["results"][0]}));
    }
    Outcome::Held(hash_str(&q.to_string()), total > 0)
}

/// Native memory: whatever is created, scanned, rejected and deleted through the package, the memory
/// in use afterwards does not grow with the number of repetitions.
fn memory_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    // every rule and every response is large, so that one that is kept shows
    let size = *rng.pick(&[40_000usize, 90_000, 200_000]);
    let big = "é".repeat(size / 2);
    let mut go = vec![json!({"kind": "redact", "id": hex(b"a"), "pattern": hex(b"[0-9]{4}"), "value": hex(big.as_bytes()), "count": 0, "direction": "", "validator": ""})];
    for _ in 0..rng.below(3) {
        go.push(json!({"kind": "redact", "id": hex(big.as_bytes()), "pattern": hex(b"secret[a-f]+"), "value": hex(big.as_bytes()), "count": 0, "direction": "", "validator": ""}));
    }
    let bad = rng.below(4);
    match bad {
        1 => go.push(json!({"kind": "match", "id": "", "pattern": hex(b"(("), "value": "", "count": 0, "direction": "", "validator": ""})),
        2 => go.push(json!({"kind": "partial", "id": "", "pattern": hex(b"abc"), "value": "", "count": 0, "direction": "FirstCharacters", "validator": ""})),
        3 => go.push(json!({"kind": "match", "id": "", "pattern": hex(b"abc"), "value": "", "count": 0, "direction": "", "validator": "NoSuchChecksum"})),
        _ => {}
    }
    let events = json!([
        {"bytes": hex(format!("1234 {} secretab 5678", "x".repeat(rng.below(2) * size)).as_bytes())},
        {"tree": {"m": [[hex(b"k"), {"s": hex(b"9876")}], [hex(b"l"), {"l": [{"s": hex(b"secretc")}, {"s": hex(b"1")}]}]]}},
        {"tree": {"m": [[hex(b"k"), {"x": "nil"}]]}},
    ]);
    let n = 24;
    let q = json!({"rules": go, "events": events, "rounds": 1, "parallel": false, "memory": n});
    let a = match ask(&q) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => bad!("crash", "{e}"),
        Err(e) => {
            case.ctx.infra(e);
            return Outcome::Abstain("no worker");
        }
    };
    if !a["panic"].is_null() {
        bad!("panic", "{}", a["panic"]);
    }
    if (a["kind"] == "rejected") != (bad != 0) {
        bad!("memory: result", "rules with defect {bad}: {}", a["kind"]);
    }
    let growth: Vec<i64> = a["growth"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    // from the middle to the end, when everything that is kept on purpose exists
    let d = growth[n - 1] - growth[n / 2 - 1];
    if d > (n as i64 / 2) * size as i64 / 2 {
        bad!("memory", "{} uses of the package with rules and responses of {size} bytes (defect {bad}): native memory in use grows steadily, {growth:?}", n);
    }
    case.tagn("repeated uses with measured native memory", n as u64);
    Outcome::Held(hash_str(&q.to_string()), true)
}

/// Every validator by its Go name, on values that its own checksum accepts.
fn validator_case(case: &mut Case) -> Outcome {
    use super::admission::{valid_value, ALL};
    let rng = &mut case.rng;
    let n = rng.range(1, 4);
    let mut rules = vec![];
    let mut go = vec![];
    let mut text = String::new();
    for i in 0..n {
        let v = rng.pick(ALL).clone();
        let mark = (b'k' + i as u8) as char;
        for _ in 0..rng.range(1, 3) {
            let of = if rng.chance(2, 3) { v.clone() } else { rng.pick(ALL).clone() };
            text += &format!("{mark}#{} ", valid_value(&of, rng).replace([' ', '\n'], ""));
        }
        // (the mark is not part of the value that is checked)
        let mut c = RegexRuleConfig::new("\\b[A-Za-z0-9_.-]{5,}");
        c.validator = Some(v);
        if rng.chance(1, 2) {
            c.match_action = MatchAction::Redact { replacement: format!("[{mark}]") };
        }
        let Some(g) = go_rule(&c, "v") else { return Outcome::Abstain("not expressible in Go") };
        go.push(g);
        rules.push(c.build() as _);
    }
    let q = json!({"rules": go, "events": [{"bytes": hex(text.as_bytes())}], "rounds": 1, "parallel": false});
    let Ok(scanner) = Scanner::builder(&rules).build() else { return Outcome::Abstain("rejected pattern") };
    let obs = match observe::<dd_sds::Utf8Encoding>(&scanner, &Val::Str(text.clone()), &[]) {
        Ok(o) => o,
        Err((s, d)) => bad!(s, "{d}"),
    };
    let a = match ask(&q) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => bad!("crash", "{e}\n{q}"),
        Err(e) => {
            case.ctx.infra(e);
            return Outcome::Abstain("no worker");
        }
    };
    let r = &a["results"][0];
    if !a["panic"].is_null() || !a["create"].is_null() || !r["err"].is_null() || !r["panic"].is_null() {
        bad!("create", "{a}\n{q}");
    }
    let want: Vec<String> = obs.matches.iter().map(show_lib).collect();
    let got: Vec<String> = r["matches"].as_array().map(|l| l.iter().map(show_go).collect()).unwrap_or_default();
    if want != got {
        bad!("validator", "{text:?}: library {want:#?}\nGo {got:#?}\n{q}");
    }
    case.tagn("validated matches", want.len() as u64);
    Outcome::Held(hash_str(&q.to_string()), !want.is_empty())
}

pub fn p20(ctx: &Ctx) {
    let k = Knobs {
        rules: (1, 4),
        inc: 30,
        exc: 25,
        validator: 15,
        mutate: 70,
        depth: 4,
        strings: (1, 4),
        simple: 80,
        wide: true,
        repeat: 10,
        ..Knobs::default()
    };
    ctx.phase("create", opts(ctx, 3_000, 12.0), create_case);
    ctx.phase("scan", opts(ctx, 8_000, 22.0), |c| scan_case(c, &k));
    let long = Knobs { pieces: (50, 400), strings: (1, 2), ..k };
    ctx.phase("long", opts(ctx, 300, 8.0), |c| scan_case(c, &long));
    ctx.phase("validators", opts(ctx, 500, 5.0), validator_case);
    stop_workers();
    ctx.phase("memory", PhaseOpts { cases: ctx.n(20), threads: 4, max_s: ctx.secs(8.0) }, memory_case);
    stop_workers();
}
