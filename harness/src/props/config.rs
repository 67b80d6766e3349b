//! Admission and serialisation of configurations (P22).
use super::scan::opts;
use crate::events::{gen_path, Val, KEYS};
use crate::gen::*;
use crate::model::{Act, MKw, MRule, MScope};
use crate::util::*;
use dd_sds::{
    AwsConfig, AwsType, CreateScannerError, HttpMethod, HttpValidatorConfigBuilder, Labels, MatchAction,
    MatchValidationType, PartialRedactDirection, Path, PathSegment, ProximityKeywordsConfig, RegexRuleConfig,
    RequestHeader, RuleConfig, Scanner, Scope, SecondaryValidator, Utf8Encoding,
};
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::Duration;

macro_rules! bad {
    ($sig:expr, $($a:tt)*) => { return Outcome::Violated($sig.into(), format!($($a)*)) };
}

// ---------------------------------------------------------------- limits

/// Documented messages, by kind.
fn text_of(problem: &str, n: usize) -> String {
    match problem {
        "syntax" => "Invalid regex syntax".into(),
        "depth" => "The regex pattern is nested too deeply".into(),
        "complex" => "The regex has exceeded the complexity limit (try simplifying the regex)".into(),
        "empty" => "Regex patterns are not allowed to match an empty string".into(),
        "quantifier" => "Regex quantifier is too high. Max is 3000".into(),
        "look-ahead" => "Look ahead character count should be bigger than 0 and cannot be longer than 50".into(),
        "count" => "No more than 50 keywords are allowed".into(),
        "length" => format!("Keywords cannot be longer than the look ahead character count ({n})"),
        "blank" => "Empty keywords are not allowed".into(),
        "action" => "Partial redaction chars must be non-zero".into(),
        _ => unreachable!(),
    }
}
fn code_of(problem: &str) -> i64 {
    match problem {
        "syntax" | "depth" | "complex" | "empty" | "quantifier" => -2,
        "action" => -4,
        _ => -3,
    }
}
fn kind_of(e: &CreateScannerError) -> i64 {
    match e {
        CreateScannerError::InvalidRegex(_) => -2,
        CreateScannerError::InvalidKeywords(_) => -3,
        CreateScannerError::InvalidMatchAction(_) => -4,
        CreateScannerError::InvalidMatchValidator(_) => -5,
    }
}

fn word(rng: &mut Rng, chars: usize) -> String {
    let wide = rng.chance(1, 3);
    let alphabet: Vec<char> = if wide { "aZé漢😀ß9".chars().collect() } else { "abcXYZ019".chars().collect() };
    (0..chars).map(|_| *rng.pick(&alphabet)).collect()
}

/// A keyword list and the problems it has (excluded lists ignore hyphens and underscores).
fn keyword_list(rng: &mut Rng, n: usize, excluded: bool, trouble: usize, problems: &mut Vec<&'static str>) -> Vec<String> {
    let max = n.clamp(1, 50);
    let len = match rng.below(8) {
        0 => 0,
        1 => 50,
        2 => 49,
        _ => rng.range(1, 4),
    };
    let mut v: Vec<String> = (0..len)
        .map(|_| {
            let k = match rng.below(4) {
                0 => max,
                1 => 1,
                _ => rng.range(1, max),
            };
            word(rng, k)
        })
        .collect();
    // harmless decorations that stay within the limit
    for k in v.iter_mut() {
        if rng.chance(1, 6) && k.chars().count() + 2 <= max {
            *k = format!(" {k} ");
        } else if rng.chance(1, 8) && k.chars().count() < max {
            k.push(*rng.pick(&['-', '_', '.', '/', '#', '\\', '(', '[', '+', '*', '?', '|', '^', '$', '{', '&', '~']));
        }
    }
    if rng.below(100) < trouble {
        match rng.below(4) {
            0 => {
                let extra = *rng.pick(&[1usize, 1, 2, 30]);
                while v.len() < 50 + extra {
                    v.push(word(rng, 1));
                }
                problems.push("count");
            }
            1 => {
                let extra = *rng.pick(&[1usize, 1, 2, 10]);
                let mut k = word(rng, n + extra);
                if rng.chance(1, 4) {
                    // the length counts before trimming
                    k = format!("{}{}", " ".repeat(n), word(rng, extra));
                }
                let i = rng.below(v.len() + 1);
                v.insert(i, k);
                problems.push("length");
            }
            2 => {
                let k = if excluded && rng.chance(1, 2) {
                    *rng.pick(&["-", "_", "__", "-_-"])
                } else {
                    *rng.pick(&["", " ", "  ", "\t", "\u{3000}", "\n"])
                };
                if k.chars().count() <= n {
                    let i = rng.below(v.len() + 1);
                    v.insert(i, k.to_string());
                    problems.push("blank");
                }
            }
            _ => {}
        }
        if v.len() > 50 && !problems.contains(&"count") {
            problems.push("count");
        }
    }
    v
}

pub struct Made {
    pub cfg: RegexRuleConfig,
    problems: Vec<&'static str>,
    n: usize,
}
pub fn make(rng: &mut Rng, trouble: usize) -> Made {
    let mut problems = vec![];
    let mut n = 0;
    let pattern = if rng.below(100) < trouble / 2 {
        let (p, why): (String, &'static str) = match rng.below(6) {
            0 => ("ab(c".into(), "syntax"),
            1 => ("a{2,1}".into(), "syntax"),
            2 => (format!("{}a{}", "(".repeat(60), ")".repeat(60)), "depth"),
            3 => ("(?:x|y?)".into(), "empty"),
            4 => ("a{3001}".into(), "quantifier"),
            _ => ("(?:\\w{3000}){100}".into(), "complex"),
        };
        problems.push(why);
        p
    } else {
        rng.word(&["abc", "[0-9]{3}", "a{3000}", "\\bkey-\\d+\\b", "(?i)secret", "é+"]).to_string()
    };
    let mut cfg = RegexRuleConfig::new(&pattern);
    cfg = match rng.below(6) {
        0 => cfg.match_action(MatchAction::Hash),
        1 => cfg.match_action(MatchAction::Redact {
            replacement: rng.word(&["", "x", "[é]"]).into(),
        }),
        2 | 3 => {
            let zero = rng.below(100) < trouble;
            if zero {
                problems.push("action");
            }
            cfg.match_action(MatchAction::PartialRedact {
                direction: if rng.chance(1, 2) {
                    PartialRedactDirection::FirstCharacters
                } else {
                    PartialRedactDirection::LastCharacters
                },
                character_count: if zero { 0 } else { *rng.pick(&[1, 2, 50, 1000]) },
            })
        }
        _ => cfg,
    };
    if rng.chance(3, 4) {
        n = if rng.below(100) < trouble {
            *rng.pick(&[0, 51, 52, 100, 1_000_000])
        } else {
            *rng.pick(&[1, 2, 10, 30, 49, 50])
        };
        if n == 0 || n > 50 {
            problems.push("look-ahead");
        }
        let inc = if rng.chance(2, 3) { keyword_list(rng, n, false, trouble, &mut problems) } else { vec![] };
        let exc = if rng.chance(2, 3) { keyword_list(rng, n, true, trouble, &mut problems) } else { vec![] };
        cfg = cfg.proximity_keywords(ProximityKeywordsConfig {
            look_ahead_character_count: n,
            included_keywords: inc,
            excluded_keywords: exc,
        });
    }
    if rng.chance(1, 4) {
        cfg = cfg.validator(gen_validator(rng));
    }
    cfg = dress(rng, cfg);
    problems.sort();
    problems.dedup();
    Made { cfg, problems, n }
}
/// Settings that have no say in whether a configuration is valid.
fn dress(rng: &mut Rng, mut cfg: RegexRuleConfig) -> RegexRuleConfig {
    let f = |s: &str| Path::from(vec![PathSegment::Field(s.to_string().into())]);
    if rng.chance(1, 3) {
        cfg = cfg.scope(match rng.below(5) {
            0 => Scope::all(),
            1 => Scope::include(vec![f("a"), f("b")]),
            2 => Scope::exclude(vec![f("a")]),
            3 => Scope::include_and_exclude(vec![Path::root()], vec![f("x")]),
            _ => Scope::include(vec![]),
        });
    }
    if rng.chance(1, 4) {
        cfg = cfg.labels(Labels::new(&[("k", "v"), ("team", "é")]));
    }
    if rng.chance(1, 6) {
        cfg = cfg.match_validation_type(gen_mvt(rng));
    }
    cfg
}
fn gen_validator(rng: &mut Rng) -> SecondaryValidator {
    match rng.below(7) {
        0 => SecondaryValidator::LuhnChecksum,
        1 => SecondaryValidator::ChineseIdChecksum,
        2 => SecondaryValidator::GithubTokenChecksum,
        3 => SecondaryValidator::NhsCheckDigit,
        4 => SecondaryValidator::IbanChecker,
        5 => SecondaryValidator::NirChecksum,
        _ => SecondaryValidator::JwtExpirationChecker,
    }
}

fn limits_case(case: &mut Case) -> Outcome {
    let n = case.rng.range(1, 4);
    let trouble = *case.rng.pick(&[0, 10, 25]);
    let made: Vec<Made> = (0..n).map(|_| make(&mut case.rng, trouble)).collect();
    let rules: Vec<Arc<dyn RuleConfig>> = made.iter().map(|m| m.cfg.build()).collect();
    let first = made.iter().find(|m| !m.problems.is_empty());
    let show = || made.iter().map(|m| format!("{:?}\n    problems: {:?}\n", m.cfg, m.problems)).collect::<String>();
    match (guarded(|| Scanner::builder(&rules).build()), first) {
        (Err(p), _) => bad!("panic", "building a scanner panicked at {}: {}\n{}", p.loc, p.msg, show()),
        (Ok(Ok(s)), None) => {
            let mut e = "some abc 123 secret".to_string();
            if let Err(p) = guarded(|| s.scan(&mut e, vec![])) {
                bad!("scan panic", "the accepted configuration panics in a scan at {}: {}\n{}", p.loc, p.msg, show());
            }
            case.tag("accepted configurations");
        }
        (Ok(Ok(_)), Some(m)) => bad!("accepted", "a configuration with problems {:?} was accepted\n{}", m.problems, show()),
        (Ok(Err(e)), None) => bad!("rejected", "a configuration within all limits was rejected: {e}\n{}", show()),
        (Ok(Err(e)), Some(m)) => {
            let kind = kind_of(&e);
            if !m.problems.iter().any(|p| code_of(p) == kind) {
                bad!("kind", "the error is {e:?}, the problems of the first bad rule are {:?}\n{}", m.problems, show());
            }
            let text = e.to_string();
            if !m.problems.iter().any(|p| text_of(p, m.n) == text) {
                bad!("message", "the error is {text:?}, the problems of the first bad rule are {:?}\n{}", m.problems, show());
            }
            let code: i64 = e.into();
            if code != kind {
                bad!("code", "the error code of {text:?} is {code}, expected {kind}");
            }
            for p in &m.problems {
                case.tag(&format!("rejected: {p}"));
            }
        }
    }
    Outcome::Held(hash_str(&show()), true)
}

/// Every limit alone, exactly at and just beyond the boundary.
fn boundary_case(case: &mut Case) -> Outcome {
    let n = case.n as usize;
    let w = |k: usize| "é".repeat(k);
    let kw = |n: usize, i: Vec<String>, e: Vec<String>| {
        RegexRuleConfig::new("abc").proximity_keywords(ProximityKeywordsConfig {
            look_ahead_character_count: n,
            included_keywords: i,
            excluded_keywords: e,
        })
    };
    let mut fam: Vec<(RegexRuleConfig, Option<&str>)> = vec![];
    for n in 0..=60 {
        let ok = (1..=50).contains(&n);
        let p = if ok { None } else { Some("look-ahead") };
        fam.push((kw(n, vec![], vec![]), p));
        if ok {
            for (l, p) in [(n, None), (n + 1, Some("length"))] {
                fam.push((kw(n, vec![w(l)], vec![]), p));
                fam.push((kw(n, vec![], vec![w(l)]), p));
                fam.push((kw(n, vec!["a".into(), w(l)], vec!["b".into()]), p));
                fam.push((kw(n, vec!["a".into()], vec!["b".into(), w(l)]), p));
            }
            fam.push((kw(n, vec!["a".repeat(n)], vec!["-".into()]), Some("blank")));
            fam.push((kw(n, vec!["-".into()], vec!["a".into()]), None));
            fam.push((kw(n, vec!["".into()], vec![]), Some("blank")));
            fam.push((kw(n, vec![], vec![" ".into()]), Some("blank")));
        }
    }
    // everything at its limit at once, of characters that have several case variants
    for chars in ["a", "sk", "ωΩθϑ", "ᾳῼ", "ǅǈ", "İıß", "𞤀𐐀", "ﬅſt"] {
        let list: Vec<String> = (0..50)
            .map(|i| {
                let cs: Vec<char> = chars.chars().collect();
                format!("{}{i:02}", (0..48).map(|j| cs[(i + j) % cs.len()]).collect::<String>())
            })
            .collect();
        fam.push((kw(50, list.clone(), vec![]), None));
        fam.push((kw(50, vec![], list.clone()), None));
        fam.push((kw(50, list.clone(), list), None));
    }
    for c in 48..=53 {
        let list: Vec<String> = (0..c).map(|i| format!("k{i}")).collect();
        let p = if c <= 50 { None } else { Some("count") };
        fam.push((kw(10, list.clone(), vec![]), p));
        fam.push((kw(10, vec![], list.clone()), p));
        fam.push((kw(10, list.clone(), (0..50).map(|i| format!("e{i}")).collect()), p));
        // repeated keywords count too
        fam.push((kw(10, vec!["same".into(); c], vec![]), p));
        fam.push((kw(10, vec![], vec!["same".into(); c]), p));
    }
    for c in [0usize, 1, 2, 3, 5000] {
        for d in [PartialRedactDirection::FirstCharacters, PartialRedactDirection::LastCharacters] {
            fam.push((
                RegexRuleConfig::new("abc").match_action(MatchAction::PartialRedact {
                    direction: d,
                    character_count: c,
                }),
                if c == 0 { Some("action") } else { None },
            ));
        }
    }
    let Some((cfg, want)) = fam.get(n) else { return Outcome::Held(u64::MAX, false) };
    // a valid rule on either side must not change the answer
    for pos in 0..3 {
        let ok = RegexRuleConfig::new("zzz").build();
        let mut rules = vec![ok.clone(), ok];
        let cfg = if case.rng.chance(1, 2) { dress(&mut case.rng, cfg.clone()) } else { cfg.clone() };
        rules.insert(pos, cfg.build());
        let got = match guarded(|| Scanner::builder(&rules).build()) {
            Ok(r) => r.map(|_| ()),
            Err(p) => bad!("panic", "building a scanner panicked at {}: {}\n{cfg:?}", p.loc, p.msg),
        };
        let look = cfg.proximity_keywords.as_ref().map(|k| k.look_ahead_character_count).unwrap_or(0);
        match (got, want) {
            (Ok(()), None) => {}
            (Err(e), Some(p)) if e.to_string() == text_of(p, look) && kind_of(&e) == code_of(p) => {}
            (r, w) => bad!("boundary", "expected {w:?}, got {:?}\n{cfg:?}", r.map_err(|e| e.to_string())),
        }
    }
    case.tag("boundary configurations");
    Outcome::Held(n as u64, true)
}

// ---------------------------------------------------------------- serialisation

fn wire_path(p: &Path) -> Value {
    json!({"segments": p.segments.iter().map(|s| match s {
        PathSegment::Field(f) => json!({"type": "Field", "value": f}),
        PathSegment::Index(i) => json!({"type": "Index", "value": i}),
    }).collect::<Vec<_>>()})
}
fn wire_paths(p: &[Path]) -> Value {
    Value::Array(p.iter().map(|x| wire_path(x)).collect())
}
fn wire_scope(s: &MScope) -> Value {
    match s {
        MScope::Include(i, e) => json!({"type": "Include", "paths": {"include": wire_paths(i), "exclude": wire_paths(e)}}),
        MScope::Exclude(e) => json!({"type": "Exclude", "paths": wire_paths(e)}),
    }
}
fn wire_action(a: &Act) -> Value {
    match a {
        Act::None => json!({"type": "None"}),
        Act::Redact(r) => json!({"type": "Redact", "replacement": r}),
        Act::Hash => json!({"type": "Hash"}),
        Act::Utf16Hash => json!({"type": "Utf16Hash"}),
        Act::First(n) => json!({"type": "PartialRedact", "direction": "FirstCharacters", "character_count": n}),
        Act::Last(n) => json!({"type": "PartialRedact", "direction": "LastCharacters", "character_count": n}),
    }
}
/// The documented wire form; absent and null optional fields chosen at random.
pub fn wire_rule(rng: &mut Rng, r: &MRule, labels: &[(String, String)]) -> Value {
    let mut o = serde_json::Map::new();
    o.insert("pattern".into(), json!(r.rx.pattern));
    o.insert("match_action".into(), wire_action(&r.act));
    if !(matches!(&r.scope, MScope::Exclude(e) if e.is_empty()) && rng.chance(1, 2)) {
        o.insert("scope".into(), wire_scope(&r.scope));
    }
    match &r.kw {
        Some(k) => {
            let mut m = serde_json::Map::new();
            m.insert("look_ahead_character_count".into(), json!(k.n));
            for (name, l) in [("included_keywords", &k.inc), ("excluded_keywords", &k.exc)] {
                match (l.is_empty(), rng.below(3)) {
                    (true, 0) => {}
                    (true, 1) => {
                        m.insert(name.into(), Value::Null);
                    }
                    _ => {
                        m.insert(name.into(), json!(l));
                    }
                }
            }
            o.insert("proximity_keywords".into(), Value::Object(m));
        }
        None => {
            if rng.chance(1, 2) {
                o.insert("proximity_keywords".into(), Value::Null);
            }
        }
    }
    match &r.validator {
        Some(v) => {
            o.insert("validator".into(), json!({"type": format!("{v:?}")}));
        }
        None => {
            if rng.chance(1, 2) {
                o.insert("validator".into(), Value::Null);
            }
        }
    }
    match (labels.is_empty(), rng.below(3)) {
        (true, 0) => {}
        (true, 1) => {
            o.insert("labels".into(), Value::Null);
        }
        _ => {
            o.insert("labels".into(), json!(labels.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()));
        }
    }
    if rng.chance(1, 2) {
        o.insert("match_validation_type".into(), Value::Null);
    }
    Value::Object(o)
}

pub fn gen_mvt(rng: &mut Rng) -> MatchValidationType {
    match rng.below(5) {
        0 => MatchValidationType::Aws(AwsType::AwsId),
        1 => MatchValidationType::Aws(AwsType::AwsSession),
        2 => MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig {
            aws_sts_endpoint: rng.word(&["http://127.0.0.1:9", "https://é.example"]).into(),
            timeout: Duration::from_millis(rng.below(100_000) as u64),
            ..AwsConfig::default()
        })),
        _ => {
            let hosts = rng.chance(1, 2);
            let mut b = HttpValidatorConfigBuilder::new(if hosts { "http://$HOST/x" } else { "http://127.0.0.1:9/x" }.to_string());
            if hosts {
                b.set_hosts((0..rng.range(1, 3)).map(|i| format!("h{i}")).collect());
            }
            b.set_method(match rng.below(5) {
                0 => HttpMethod::Get,
                1 => HttpMethod::Post,
                2 => HttpMethod::Put,
                3 => HttpMethod::Delete,
                _ => HttpMethod::Patch,
            });
            b.set_request_header(
                (0..rng.below(3))
                    .map(|i| RequestHeader {
                        key: format!("k{i}"),
                        value: rng.word(&["$MATCH", "a $MATCH b", ""]).into(),
                    })
                    .collect(),
            );
            let range = |rng: &mut Rng| {
                let a = rng.range(100, 599) as u16;
                a..a + rng.below(100) as u16
            };
            let r: Vec<_> = (0..rng.below(3)).map(|_| range(rng)).collect();
            b.set_valid_http_status_code(r);
            let r: Vec<_> = (0..rng.below(3)).map(|_| range(rng)).collect();
            b.set_invalid_http_status_code(r);
            b.set_timeout(Duration::from_micros(rng.below(10_000_000) as u64));
            MatchValidationType::CustomHttp(b.build().unwrap())
        }
    }
}

fn behaves_alike(a: &RegexRuleConfig, b: &RegexRuleConfig, contents: &[Val]) -> Option<String> {
    let strip = |c: &RegexRuleConfig| RegexRuleConfig {
        match_validation_type: None,
        ..c.clone()
    };
    let (x, y) = (Scanner::builder(&[strip(a).build()]).build(), Scanner::builder(&[strip(b).build()]).build());
    match (x, y) {
        (Ok(x), Ok(y)) => {
            for c in contents {
                let (ox, oy) = (observe::<Utf8Encoding>(&x, c, &[]), observe::<Utf8Encoding>(&y, c, &[]));
                match (ox, oy) {
                    (Ok(ox), Ok(oy)) => {
                        if ox.matches != oy.matches || ox.val != oy.val {
                            return Some(format!(
                                "on {c:?} the original gives\n{}the other gives\n{}",
                                show_matches(&ox.matches),
                                show_matches(&oy.matches)
                            ));
                        }
                    }
                    (r, s) => return Some(format!("scan failed: {:?} {:?}", r.err(), s.err())),
                }
            }
            None
        }
        (Err(e), Err(f)) => (e != f).then(|| format!("the original is rejected with {e}, the other with {f}")),
        (x, y) => Some(format!("original accepted: {}, other accepted: {}", x.is_ok(), y.is_ok())),
    }
}

fn wire_case(case: &mut Case, k: &Knobs) -> Outcome {
    let w = gen_world(&mut case.rng, k);
    for r in &w.rules {
        let mut r = r.clone();
        if case.rng.chance(1, 6) {
            // configurations need not be valid to be stored
            r.kw = Some(MKw {
                n: *case.rng.pick(&[0, 51, 7]),
                inc: vec![" é\"\\ ".into(), "".into()],
                exc: vec![],
            });
            r.act = Act::First(0);
        }
        if case.rng.chance(1, 5) {
            let p = gen_path(&mut case.rng, &w.val, KEYS);
            let q = gen_path(&mut case.rng, &w.val, KEYS);
            r.scope = if case.rng.chance(1, 2) { MScope::Include(vec![p, q], vec![]) } else { MScope::Exclude(vec![p, q]) };
        }
        let labels: Vec<(String, String)> = (0..case.rng.below(3))
            .map(|i| {
                let k = case.rng.word(&["l", "l", " l", "l ", "L", "l:", "é\t", "\n", "l=,"]);
                let k = if case.rng.chance(1, 8) { k.to_string() } else { format!("{k}{i}") };
                (k, case.rng.word(&["", "é \"q\"", "v", " v", "v ", "V", ",", "v:w", "\t", "l0"]).to_string())
            })
            .collect();
        let cfg = r.to_config();
        let cfg = if labels.is_empty() { cfg } else { cfg.labels(Labels::new(&labels)) };
        // reading the documented form
        let wire = wire_rule(&mut case.rng, &r, &labels);
        let got: RegexRuleConfig = match serde_json::from_str(&wire.to_string()) {
            Ok(c) => c,
            Err(e) => bad!("wire rejected", "the documented form is not read: {e}\n{wire}"),
        };
        if got != cfg {
            bad!("wire read", "{wire}\nis read as {got:?}\nexpected {cfg:?}");
        }
        // round trip, with a validation type
        let cfg = if case.rng.chance(1, 3) {
            case.tag("validation types");
            cfg.match_validation_type(gen_mvt(&mut case.rng))
        } else {
            cfg
        };
        let text = match serde_json::to_string(&cfg) {
            Ok(t) => t,
            Err(e) => bad!("not serialised", "{e}: {cfg:?}"),
        };
        let back: RegexRuleConfig = match serde_json::from_str(&text) {
            Ok(c) => c,
            Err(e) => bad!("not read back", "{e}: {text}"),
        };
        if back != cfg {
            bad!("round trip", "{cfg:?}\nis written as {text}\nand read as {back:?}");
        }
        let v: Value = serde_json::to_value(&cfg).unwrap();
        let again: RegexRuleConfig = match serde_json::from_value(v.clone()) {
            Ok(c) => c,
            Err(e) => bad!("not read back", "{e}: {v}"),
        };
        if again != cfg {
            bad!("round trip", "{cfg:?}\nis written as {v}\nand read as {again:?}");
        }
        if let Some(d) = behaves_alike(&r.to_config(), &back, std::slice::from_ref(&w.val)) {
            bad!("behaviour", "{d}\n{cfg:?}");
        }
        // required fields
        let mut m = wire.as_object().unwrap().clone();
        let gone = case.rng.word(&["pattern", "match_action"]);
        m.remove(gone);
        match guarded(|| serde_json::from_value::<RegexRuleConfig>(Value::Object(m))) {
            Ok(Err(_)) => {}
            Ok(Ok(c)) => bad!("required field", "a rule without `{gone}` is read as {c:?}"),
            Err(p) => bad!("panic", "reading a rule without `{gone}` panicked at {}", p.loc),
        }
        case.tag("configurations round-tripped");
    }
    Outcome::Held(hash_str(&w.describe()), true)
}

/// Setters change exactly their field, of a copy.
fn builder_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    let labels = Labels::new(&[("a", "b")]);
    let scope = Scope::include(vec![Path::from(vec!["x".into()])]);
    let kw = ProximityKeywordsConfig {
        look_ahead_character_count: rng.range(1, 50),
        included_keywords: vec!["k".into()],
        excluded_keywords: vec![],
    };
    let act = MatchAction::Redact {
        replacement: format!("r{}", rng.below(100)),
    };
    let val = gen_validator(rng);
    let mvt = gen_mvt(rng);
    let pattern = format!("p{}", rng.below(1000));
    let mut cur = RegexRuleConfig::new("start");
    let mut want = RegexRuleConfig {
        pattern: "start".into(),
        match_action: MatchAction::None,
        scope: Scope::all(),
        proximity_keywords: None,
        validator: None,
        labels: Labels::empty(),
        match_validation_type: None,
    };
    if cur != want {
        bad!("defaults", "{cur:?}");
    }
    for _ in 0..rng.range(1, 10) {
        let before = cur.clone();
        let next = match rng.below(7) {
            0 => {
                want.pattern = pattern.clone();
                cur.pattern(pattern.clone())
            }
            1 => {
                want.match_action = act.clone();
                cur.match_action(act.clone())
            }
            2 => {
                want.scope = scope.clone();
                cur.scope(scope.clone())
            }
            3 => {
                want.proximity_keywords = Some(kw.clone());
                cur.proximity_keywords(kw.clone())
            }
            4 => {
                want.validator = Some(val.clone());
                cur.validator(val.clone())
            }
            5 => {
                want.labels = labels.clone();
                cur.labels(labels.clone())
            }
            _ => {
                want.match_validation_type = Some(mvt.clone());
                cur.match_validation_type(mvt.clone())
            }
        };
        if cur != before {
            bad!("setter", "a setter changed its receiver: {before:?} became {cur:?}");
        }
        if next != want {
            bad!("setter", "expected {want:?}, got {next:?}");
        }
        cur = next;
    }
    if cur.build().get_match_validation_type() != cur.match_validation_type.as_ref() {
        bad!("build", "the built rule of {cur:?} has another validation type");
    }
    // labels: concatenation and wire form
    let rng = &mut case.rng;
    let l = |rng: &mut Rng| -> Vec<(String, String)> {
        (0..rng.below(4))
            .map(|i| (format!("k{}", rng.below(3)), format!("é{i}")))
            .collect()
    };
    let (a, b) = (l(rng), l(rng));
    let ab: Vec<(String, String)> = a.iter().chain(&b).cloned().collect();
    let joined = Labels::new(&a).clone_with_labels(Labels::new(&b));
    if joined != Labels::new(&ab) {
        bad!("labels", "{a:?} with {b:?} gives {joined:?}");
    }
    let text = serde_json::to_string(&joined).unwrap();
    let back: Result<Labels, _> = serde_json::from_str(&text);
    let back = match back {
        Ok(b) => b,
        Err(e) => bad!("labels", "{text} is not read back: {e}"),
    };
    if back != joined {
        bad!("labels", "{joined:?} is written as {text} and read as {back:?}");
    }
    let wire: Value = json!(ab.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>());
    if serde_json::from_value::<Labels>(wire.clone()).ok().as_ref() != Some(&joined) {
        bad!("labels", "{wire} is not read as {joined:?}");
    }
    for x in [json!([["a"]]), json!([["a", "b", "c"]]), json!([[]]), json!([["a", "b"], ["c"]])] {
        if let Ok(l) = serde_json::from_value::<Labels>(x.clone()) {
            bad!("labels", "{x} is read as {l:?}");
        }
    }
    Outcome::Held(hash_str(&format!("{cur:?}{ab:?}")), true)
}

pub fn p22(ctx: &Ctx) {
    ctx.phase(
        "boundary",
        PhaseOpts {
            cases: 800,
            threads: 8,
            max_s: 60.0,
        },
        boundary_case,
    );
    ctx.phase("limits", opts(ctx, 8_000, 14.0), limits_case);
    let k = Knobs {
        rules: (1, 3),
        inc: 40,
        exc: 40,
        validator: 40,
        scope: 50,
        depth: 2,
        strings: (1, 4),
        simple: 70,
        ..Knobs::default()
    };
    ctx.phase("wire", opts(ctx, 8_000, 14.0), |case| wire_case(case, &k));
    ctx.phase("builder", opts(ctx, 4_000, 5.0), builder_case);
}
