//! P03 (pattern admission) and P12 (checksum validators).
use crate::events::Val;
use crate::gen::*;
use crate::model::{self, Act, Features, MRule, MScope};
use crate::rx::{build, gen_alt, GenOpts, Node, Rx, Text, ALPHABET};
use crate::rxparse::{parse, Bad};
use crate::util::*;
use crate::validators as val;
use dd_sds::{
    get_regex_complexity_estimate_very_slow, validate_regex, CreateScannerError, RegexRuleConfig,
    RegexValidationError as E, Scanner, SecondaryValidator as V, Utf8Encoding, Validator,
};
use serde_json::json;

use super::scan::opts;

/// Ok(Some(..)): decided. None: open.
fn expected(p: &str) -> (Option<Result<(), E>>, Option<(Node, bool)>) {
    match parse(p) {
        Err(Bad::Open(_)) => (None, None),
        Err(Bad::Syntax) => (Some(Err(E::InvalidSyntax)), None),
        Err(Bad::Depth) => (Some(Err(E::ExceededDepthLimit)), None),
        Ok(x) => {
            if x.verbose && p.contains(|c: char| c == '#' || c.is_whitespace()) {
                return (None, None);
            }
            if x.quant {
                return (Some(Err(E::ExceededQuantifierLimit)), None);
            }
            if x.invalid {
                return (Some(Err(E::InvalidSyntax)), None);
            }
            let r = build(&x.node, &mut Rng::new(0), false);
            let e = match r.find(&Text::new(""), 0) {
                Ok(None) => Ok(()),
                Ok(Some(_)) => Err(E::MatchesEmptyString),
                Err(_) => return (None, None),
            };
            (Some(e), Some((x.node, x.nullable_rep)))
        }
    }
}

/// What must hold for any string offered as a pattern.
pub fn judge(case: &mut Case, p: &str, contents: &[String]) -> Outcome {
    let got = match guarded(|| validate_regex(p)) {
        Ok(r) => r,
        Err(i) => return Outcome::Violated(format!("panic:{}", i.loc), format!("validating {p:?} panicked: {}", i.msg)),
    };
    let built = match guarded(|| Scanner::builder(&[RegexRuleConfig::new(p).build()]).build()) {
        Ok(r) => r,
        Err(i) => return Outcome::Violated(format!("panic:{}", i.loc), format!("building a scanner for {p:?} panicked: {}", i.msg)),
    };
    let agree = match (&got, &built) {
        (Ok(()), Ok(_)) => true,
        (Err(a), Err(CreateScannerError::InvalidRegex(b))) => a == b,
        _ => false,
    };
    if !agree {
        return Outcome::Violated(
            "validation and building disagree".into(),
            format!("pattern {p:?}: validation says {got:?}, building says {:?}", built.err()),
        );
    }
    case.tag(&format!("verdict {:?}", got));
    let (want, node) = expected(p);
    if let Some(w) = &want {
        if got == Err(E::TooComplex) && (w.is_ok() || *w == Err(E::MatchesEmptyString)) {
            case.tag("too complex");
        } else if got != *w {
            return Outcome::Violated("verdict".into(), format!("pattern {p:?}: expected {w:?}, observed {got:?}"));
        }
    } else {
        case.tag("verdict not judged");
    }
    let Ok(scanner) = built else {
        return Outcome::Held(hash_str(p), true);
    };
    // whatever was accepted: scanning ends, and every match is well-formed
    for c in contents {
        let mut s = c.clone();
        let ms = match guarded(|| scanner.scan(&mut s, vec![])) {
            Ok(m) => m,
            Err(i) => return Outcome::Violated(format!("panic:{}", i.loc), format!("scanning {c:?} for {p:?} panicked: {}", i.msg)),
        };
        case.tag("scans of accepted patterns");
        let mut last = 0;
        for m in &ms {
            let (a, b) = (m.start_index, m.end_index_exclusive);
            if a >= b || b > c.len() || !c.is_char_boundary(a) || !c.is_char_boundary(b) || a < last {
                return Outcome::Violated(
                    "malformed match".into(),
                    format!("pattern {p:?} on {c:?}: match {a}..{b} after {last}"),
                );
            }
            last = b;
        }
        if s != *c {
            return Outcome::Violated("changed".into(), format!("pattern {p:?} changed {c:?} to {s:?}"));
        }
    }
    // and if its meaning is decided here, it matches what it says
    if let Some((node, false)) = node {
        if want == Some(Ok(())) {
            let rules = vec![MRule {
                rx: Rx {
                    pattern: p.to_string(),
                    ..build(&node, &mut Rng::new(0), false)
                },
                node,
                act: Act::None,
                scope: MScope::all(),
                kw: None,
                validator: None,
            }];
            for c in contents {
                if c.len() > 400 || c.chars().any(|x| !x.is_ascii() && !ALPHABET.contains(x)) {
                    continue;
                }
                let w = World {
                    rules: rules.clone(),
                    feats: Features::default(),
                    val: Val::Str(c.clone()),
                    blocked: vec![],
                };
                let Ok(out) = model::scan(&rules, w.feats, &w.val.strings(), &[]) else {
                    continue;
                };
                let obs = match observe::<Utf8Encoding>(&scanner, &w.val, &[]) {
                    Ok(o) => o,
                    Err((s, d)) => return Outcome::Violated(s, d),
                };
                case.tag("contents compared with the meaning");
                if let Some((s, d)) = diff(&rules, &w.val, &out, model::Unit::Utf8, &obs) {
                    if engine_defect::<Utf8Encoding>(&w, &out) {
                        return Outcome::Abstain("regex engine optimisation (known finding)");
                    }
                    return Outcome::Violated(s, format!("pattern {p:?} on {c:?}: {d}"));
                }
            }
        }
    }
    Outcome::Held(hash_str(p), true)
}

const TOKENS: &[&str] = &[
    "a", "b", "2", ".", "\\d", "[ab]", "[^a]", "(", ")", "(?:", "(?i)", "(?i:", "(?-i)", "(?s)", "(?", "(?<n>", "|",
    "*", "+", "?", "{2}", "{1,}", "{0,2}", "{2,1}", "{", "}", ",", "^", "$", "\\b", "\\B", "\\z", "\\A", "\\n", "[",
    "]", "-", "\\", "\\Qa.\\E", "\\Q", "\\E", "(?=", "(?!", "\\1", ":", "\\x41", "\\x{62}", "\\x{", "\\p{Ll}", "\\pL",
    "[[:alpha:]]", "[:alpha:]", "\\cA", "\\W", "(?P<m>", "(?'k'", "(?#", "A", "{3001}", "\\h", "\\N", "\\G", "++", "B",
];

pub fn p03(ctx: &Ctx) {
    let contents: Vec<String> = ["", "a", "ab", "aab2.", "b\na", "A{2}a,:-]", "bbaaA\n"].iter().map(|s| s.to_string()).collect();
    // all sequences of up to three tokens
    let n = TOKENS.len() as u64;
    let total = 1 + n + n * n + n * n * n;
    ctx.phase(
        "tokens",
        PhaseOpts {
            cases: total,
            threads: 8,
            max_s: ctx.secs(40.0),
        },
        |case| {
            let mut k = case.n;
            let mut p = String::new();
            let mut len = 0;
            let mut size = 1;
            while k >= size {
                k -= size;
                size *= n;
                len += 1;
            }
            for _ in 0..len {
                p.push_str(TOKENS[(k % n) as usize]);
                k /= n;
            }
            judge(case, &p, &contents)
        },
    );
    ctx.phase("longer", opts(ctx, 30_000, 25.0), |case| {
        let len = case.rng.range(4, 9);
        let mut p = String::new();
        for _ in 0..len {
            p.push_str(case.rng.word(TOKENS));
        }
        judge(case, &p, &contents)
    });
    let o = GenOpts {
        depth: 3,
        fancy: true,
        flags: true,
        asserts: true,
    };
    ctx.phase("mutated", opts(ctx, 20_000, 20.0), |case| {
        let node = gen_alt(&mut case.rng, o);
        let mut p: Vec<char> = build(&node, &mut case.rng, true).pattern.chars().collect();
        for _ in 0..case.rng.range(0, 2) {
            let at = case.rng.below(p.len() + 1);
            match case.rng.below(4) {
                0 if at < p.len() => {
                    p.remove(at);
                }
                1 if at < p.len() => p[at] = case.rng.pick_char(ALPHABET),
                2 => {
                    let t: Vec<char> = case.rng.word(TOKENS).chars().collect();
                    p.splice(at..at, t);
                }
                _ => p.insert(at, case.rng.pick_char("()[]{}|*+?\\^$.-,:<>=!#")),
            }
        }
        let p: String = p.into_iter().collect();
        let mut cs = vec![String::new()];
        for _ in 0..3 {
            cs.push(crate::rx::gen_content(&[&node], &mut case.rng, 4, true));
        }
        judge(case, &p, &cs)
    });
    ctx.phase("garbage", opts(ctx, 10_000, 15.0), |case| {
        let len = *case.rng.pick(&[1, 2, 3, 5, 10, 30, 100, 1000]);
        let mut p = String::new();
        while p.len() < len {
            match case.rng.below(5) {
                0 => p.push(char::from_u32(case.rng.below(0x110000) as u32).unwrap_or('\u{FFFD}')),
                1 => p.push(case.rng.pick_char(ALPHABET)),
                2 => p.push(case.rng.pick_char("()[]{}|*+?\\^$.")),
                3 => p.push_str(case.rng.word(TOKENS)),
                _ => p.push((case.rng.below(128) as u8) as char),
            }
        }
        let cs: Vec<String> = (0..2)
            .map(|_| (0..case.rng.below(40)).map(|_| case.rng.pick_char(ALPHABET)).collect())
            .collect();
        judge(case, &p, &cs)
    });
    // limits
    let mut fam: Vec<(String, Result<(), E>)> = vec![];
    for d in (0..=60).chain([100, 1000, 20_000]) {
        let want = if d < 50 { Ok(()) } else { Err(E::ExceededDepthLimit) };
        for (o, c) in [("(", ")"), ("(?:", ")"), ("(?i:", ")"), ("(a|", ")"), ("(", ")?b"), ("(?-s:x", "){1,2}")] {
            if c == "){1,2}" && d > 12 && d < 50 {
                continue; // grows exponentially: too complex
            }
            fam.push((format!("{}z{}", o.repeat(d), c.repeat(d)), want.clone_()));
        }
        if d <= 60 {
            let mut p = String::from("z");
            for i in 0..d {
                p = format!("(?<g{i}>{p})");
            }
            fam.push((p, want.clone_()));
            // groups that were closed before do not count, on any level
            for k in [1, 2, 5, 30, 60] {
                fam.push((format!("{}{}z{}", "(a)".repeat(k), "(".repeat(d), ")".repeat(d)), want.clone_()));
            }
            if d <= 52 {
                fam.push((format!("{}z{}", "((x)(?:y)".repeat(d), ")".repeat(d)), if d < 49 || d == 0 { Ok(()) } else { Err(E::ExceededDepthLimit) }));
                fam.push((format!("{}z{}", "(".repeat(d), "(w)(v))".repeat(d)), if d < 49 || d == 0 { Ok(()) } else { Err(E::ExceededDepthLimit) }));
            }
            // nor do those of the other kinds
            for k in [1, 3, 49, 50, 51, 70] {
                let mut before = String::new();
                for i in 0..k {
                    before.push_str(&match (i + d) % 5 {
                        0 => format!("(?<n{i}>a)"),
                        1 => format!("(?'n{i}'a)"),
                        2 => format!("(?P<n{i}>a)"),
                        3 => "(?i:a)".to_string(),
                        _ => "(a)".to_string(),
                    });
                }
                fam.push((format!("{before}{}z{}", "(".repeat(d), ")".repeat(d)), want.clone_()));
                let named: String = (0..k).map(|i| format!("(?<n{i}>a)")).collect();
                fam.push((format!("{named}{}z{}", "(".repeat(d), ")".repeat(d)), want.clone_()));
            }
            // siblings do not nest
            fam.push(("(a)".repeat(d + 1), Ok(())));
            fam.push((format!("{}z", "(?i)".repeat(d)), Ok(())));
        }
    }
    for n in [0u64, 1, 2, 10, 1000, 2999, 3000, 3001, 3002, 5000, 100_000, 4294967295] {
        let lim = n > 3000;
        let e = |nonempty: bool| {
            if lim {
                Err(E::ExceededQuantifierLimit)
            } else if nonempty {
                Ok(())
            } else {
                Err(E::MatchesEmptyString)
            }
        };
        fam.push((format!("a{{{n}}}"), e(n > 0)));
        fam.push((format!("a{{{n}}}?"), e(n > 0)));
        fam.push((format!("a{{{n},}}"), e(n > 0)));
        fam.push((format!("a{{0,{n}}}"), e(false)));
        fam.push((format!("xa{{0,{n}}}"), e(true)));
        fam.push((format!("a{{{n},{n}}}"), e(n > 0)));
        fam.push((format!("x(?:ba{{0,{n}}}?|c)"), e(true)));
        if n > 2 && !lim {
            fam.push((format!("a{{{n},2}}"), Err(E::InvalidSyntax)));
        }
    }
    // long patterns, with and without an empty match
    for n in [10, 30, 60, 130, 300, 700] {
        let words: Vec<String> = (0..n).map(|i| format!("w{}x", i * 7)).collect();
        let e = || Err(E::MatchesEmptyString);
        for unit in ["[a-f]?", "(a|b*)", "(?:x{0,3})", "a*?", "(|ab)"] {
            fam.push((unit.repeat(n), e()));
            fam.push((format!("{}z", unit.repeat(n)), Ok(())));
            fam.push((format!("z{}", unit.repeat(n)), Ok(())));
        }
        fam.push((words.join("|"), Ok(())));
        fam.push((format!("{}|", words.join("|")), e()));
        fam.push((format!("|{}", words.join("|")), e()));
        fam.push((format!("{}|(?:{})?", words.join("|"), words.join("")), e()));
        fam.push((format!("(?:{}|)", words.join("|")), e()));
        fam.push((format!("(?:{}|)z", words.join("|")), Ok(())));
        fam.push((words.concat(), Ok(())));
        fam.push((format!("{}|^$", words.concat()), e()));
        fam.push((format!("(?:{})*", words.concat()), e()));
    }
    for p in ["a{4294967296}", "a{99999999999}", "a{,5}", "a{-1}", "a{ 2}", "a{2 }", "a{2,3", "a{"] {
        fam.push((p.to_string(), Ok(())));
    }
    for p in [
        "(a{1000}){1000}", "((a{100}){100}){100}", "(?:\\p{L}{100}){100}", "[^a]{3000}{", "(?:(?:[a-z]{3000}){3000}|b)",
        "(?:\\w{3000}){100}",
    ] {
        if p.ends_with('{') {
            continue;
        }
        fam.push((p.to_string(), Err(E::TooComplex)));
    }
    // what the dialect leaves out is refused, wherever it stands
    for t in [
        "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "\\1", "\\g{1}", "\\k<n>", "(?R)", "(?1)", "(?P=n)", "\\K", "\\X", "\\R", "\\C",
        "\\N", "\\G", "(?#c)", "(?U)", "(?u)", "(?J)", "(*ACCEPT)", "a++", "a*+", "a?+", "a{2}+", "**", "\\u0041", "\\o{12}", "\\p{Qq}",
        "\\pL", "[z-a]", "[]", "[^]", "(", ")", "[a", "(?", "(?i", "(?:", "\\", "\\x{110000}", "\\x{41 }", "\\x{ 41}", "\\x{200041}", "\\x{1000041}", "\\x{0x41}", "\\x{4_1}", "\\x{100000041}", "\\x{d800}", "\\x{}", "\\x{zz}", "\\c1",
        "(?<1a>b)", "(?<>b)", "(?<a-b>c)", "(?<a>b)(?<a>c)", "+", "*", "?", "(?)", "\\Qabc", "\\E", "[\\Q\\E]", "[^\\Q\\E]", "[\\Q\\E]a]", "[^\\Q\\E]a]", "[^\\Q\\E]]", "[\\Q\\E\\Q\\E]", "\\l", "\\L", "\\U",
    ] {
        for (a, b) in [("", ""), ("x", ""), ("x", "y"), ("(?:x", "y)"), ("x|", ""), ("(x)", "[y]"), ("\\Qq\\E", "$")] {
            let p = format!("{a}{t}{b}");
            // some of them are something else in that place
            if let (Some(Err(e)), _) = expected(&p) {
                fam.push((p, Err(e)));
            }
        }
    }
    ctx.extra("limit and exclusion families", json!(fam.len()));
    let lim_contents: Vec<String> = vec!["zzz".into(), "a".repeat(3100), "xaab".into()];
    ctx.phase(
        "limits",
        PhaseOpts {
            cases: fam.len() as u64,
            threads: 8,
            max_s: 200.0,
        },
        |case| {
            let (p, want) = &fam[case.n as usize];
            let got = match guarded(|| validate_regex(p)) {
                Ok(r) => r,
                Err(i) => return Outcome::Violated(format!("panic:{}", i.loc), format!("validating panicked: {} for {}", i.msg, head(p))),
            };
            if got != *want {
                return Outcome::Violated("limit".into(), format!("pattern {}: expected {want:?}, observed {got:?}", head(p)));
            }
            if p.len() < 2000 {
                judge(case, p, &lim_contents)
            } else {
                Outcome::Held(hash_str(p), true)
            }
        },
    );
    // expensive patterns end, too
    let hard = [
        "(a*)*b", "(a+)+$", "(a|aa)+$", "(a|a?)+b", "(.*)*x", "(.+)+\\d", "([a-z]+)*\\.", "(\\w+\\s?)+x$", "(a?){30}a{30}",
        "(x+x+)+y", "((a*)*)*b", ".*.*.*=.*", "(?:a|b|ab)*c", "\\b(?:\\w|\\W)+?9", "(a{1,100}){1,100}b", "a.{0,3000}b",
        "(?:.a){1,500}z", "^(([a-z])+.)+[A-Z]([a-z])+$", "(?i)(?:k|s|é)+0",
    ];
    let size = if ctx.tier == Tier::Quick { 3_000 } else { 10_000 };
    ctx.phase(
        "expensive",
        PhaseOpts {
            cases: (hard.len() * 4) as u64,
            threads: 8,
            max_s: ctx.secs(60.0),
        },
        |case| {
            let p = hard[case.n as usize % hard.len()];
            let c: String = match case.n as usize / hard.len() {
                0 => "a".repeat(size),
                1 => "ab".repeat(size / 2),
                2 => "a x ".repeat(size / 4),
                _ => "k\u{212a}é=".repeat(size / 7),
            };
            case.tag("expensive pattern x long content");
            judge(case, p, &[c])
        },
    );
    // the limit is the size of the compiled pattern, measured independently
    ctx.phase("compiled size", opts(ctx, 300, 20.0), |case| {
        let base = case.rng.word(&["[a-z]", "[^a]", "[a-zé-ώ]", "ab", "[0-9A-F]", "(?:ab|cd|[x-z])", "[\\x{100}-\\x{ffff}]"]);
        let size = |n: usize, k: usize, limit: usize| {
            let p = format!("(?:{base}{{{k}}}){{{n}}}");
            let ok = regex_automata::meta::Builder::new()
                .configure(regex_automata::meta::Config::new().nfa_size_limit(Some(limit)))
                .build(&p)
                .is_ok();
            (p, ok)
        };
        let k = case.rng.range(1, 60);
        // the largest repetition within the limit
        let (mut lo, mut hi) = (1, 3001);
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            if size(mid, k, 1_000_000).1 {
                lo = mid
            } else {
                hi = mid
            }
        }
        for n in [lo.saturating_sub(1).max(1), lo, hi, hi + 1, lo + lo / 3 + 1] {
            if n > 3000 {
                continue;
            }
            let (p, ok) = size(n, k, 1_000_000);
            let want = if ok { Ok(()) } else { Err(E::TooComplex) };
            let got = validate_regex(&p);
            if got != want {
                return Outcome::Violated("complexity limit".into(), format!("pattern {p}: expected {want:?}, observed {got:?}"));
            }
            case.tag(if ok { "at or below the size limit" } else { "beyond the size limit" });
        }
        Outcome::Held(hash_str(&format!("{base} {k} {lo}")), true)
    });
    // the published complexity estimate and the limit agree
    ctx.phase("complexity", opts(ctx, 24, 30.0), |case| {
        let k = case.rng.range(1, 40);
        let base = case.rng.word(&["\\w", "[^a]", "\\p{L}", "a", "(?i)kelvin", "[^a]", "[b-y]", "[^\\x{1000}]"]);
        let n = case.rng.range(1, 60);
        let p = match case.n % 6 {
            // of no size at all
            0 => case.rng.word(&["x", "abc", "a|b", "é", "aaaa|bbb"]).to_string(),
            // far beyond the limit
            1 => format!("(?:[^a]{{{}}}){{100}}", case.rng.range(30, 85)),
            _ => format!("(?:{base}{{{k}}}){{{n}}}"),
        };
        let got = validate_regex(&p);
        match get_regex_complexity_estimate_very_slow(&p) {
            Ok(e) => {
                case.tag(if e > 1_000_000 { "estimate over the limit" } else { "estimate within the limit" });
                let want = if e > 1_000_000 { Err(E::TooComplex) } else { Ok(()) };
                if got != want {
                    return Outcome::Violated("complexity".into(), format!("pattern {p}: estimate {e}, validation {got:?}"));
                }
                // it is the smallest limit that the pattern compiles within (these bases are written the same for the engine)
                if !p.contains("\\") {
                    let fits = |limit: usize| {
                        regex_automata::meta::Builder::new()
                            .configure(regex_automata::meta::Config::new().nfa_size_limit(Some(limit)))
                            .build(&p)
                            .is_ok()
                    };
                    let exact = if e >= 10_000_000 { !fits(9_999_999) } else { fits(e) && (e == 1 || !fits(e - 1)) };
                    case.tag("estimate compared with the compiled size");
                    if !exact {
                        return Outcome::Violated(
                            "estimate".into(),
                            format!("pattern {p}: the estimate {e} is not the smallest size limit it compiles within"),
                        );
                    }
                }
                Outcome::Held(hash_str(&p), true)
            }
            Err(e) => Outcome::Violated("complexity".into(), format!("no estimate for {p}: {e:?}")),
        }
    });
}

fn head(p: &str) -> String {
    let h: String = p.chars().take(120).collect();
    format!("{h:?} ({} characters)", p.chars().count())
}
trait Clone_ {
    fn clone_(&self) -> Self;
}
impl Clone_ for Result<(), E> {
    fn clone_(&self) -> Self {
        match self {
            Ok(()) => Ok(()),
            Err(E::ExceededDepthLimit) => Err(E::ExceededDepthLimit),
            Err(_) => unreachable!(),
        }
    }
}

// ---------------------------------------------------------------- P12

pub const ALL: &[V] = &[
    V::LuhnChecksum,
    V::ChineseIdChecksum,
    V::GithubTokenChecksum,
    V::NhsCheckDigit,
    V::IbanChecker,
    V::NirChecksum,
    V::JwtExpirationChecker,
];

fn digits(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect()
}
fn alnum_str(rng: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| rng.pick_char("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"))
        .collect()
}
/// puts separators between the characters
fn spread(rng: &mut Rng, s: &str, seps: &[&str]) -> String {
    let style = rng.below(4);
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && ((style == 1 && i % 4 == 0) || (style == 2 && i % 3 == 0) || (style == 3 && rng.chance(1, 3))) {
            out.push_str(rng.word(seps));
        }
        out.push(c);
    }
    out
}

/// A value that the validator has to accept.
pub fn valid_value(v: &V, rng: &mut Rng) -> String {
    match v {
        V::LuhnChecksum => loop {
            let len = *rng.pick(&[1, 2, 5, 13, 14, 15, 16, 19, 40]);
            let b = digits(rng, len);
            for c in '0'..='9' {
                let t = format!("{b}{c}");
                let d: Vec<u32> = t.chars().map(|c| c.to_digit(10).unwrap()).collect();
                if val::luhn_ok(&d) {
                    return spread(rng, &t, &[" ", "-", ".", "  ", "é", "x", "３", "²", "𝟗", "\u{200b}", "\t", "٣"]);
                }
            }
        },
        V::ChineseIdChecksum => loop {
            let b = digits(rng, 17);
            for c in "0123456789Xx".chars() {
                let t = format!("{b}{c}");
                if val::chinese_ok(&t) && (c != 'X' || rng.chance(1, 2)) {
                    return t;
                }
            }
        },
        V::GithubTokenChecksum => {
            let n = *rng.pick(&[1, 2, 7, 30, 30, 30, 36, 80]);
            let b = alnum_str(rng, n);
            format!("{}_{b}{}", rng.word(&["ghp", "gho", "ghs", "", "github_pat", "a_b_c", "é"]), val::b62_6(val::crc32(b.as_bytes())))
        }
        V::NhsCheckDigit => loop {
            let b = digits(rng, 9);
            for c in '0'..='9' {
                let t = format!("{b}{c}");
                let d: Vec<u32> = t.chars().map(|c| c.to_digit(10).unwrap()).collect();
                if val::nhs_ok(&d) {
                    return spread(rng, &t, &[" ", "-", "  ", "５", "\u{a0}", "٣"]);
                }
            }
        },
        V::NirChecksum => {
            let b = digits(rng, 13);
            let k = 97 - b.parse::<u64>().unwrap() % 97;
            spread(rng, &format!("{b}{k:02}"), &[" ", "-", ".", "０", "\u{a0}", "٣"])
        }
        V::IbanChecker => {
            let (cc, spec) = *rng.pick(val::IBANS);
            let mut b = String::new();
            let mut n = 0;
            for ch in spec.chars() {
                if let Some(d) = ch.to_digit(10) {
                    n = n * 10 + d as usize;
                } else {
                    for _ in 0..n {
                        b.push(match ch {
                            'n' => rng.pick_char("0123456789"),
                            'a' => rng.pick_char("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
                            _ => rng.pick_char("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"),
                        });
                    }
                    n = 0;
                }
            }
            let k = 98 - val::iban_mod97(&format!("{cc}00{b}"));
            if rng.chance(1, 4) {
                b = b.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_lowercase() } else { c }).collect();
            }
            spread(rng, &format!("{cc}{k:02}{b}"), &[" ", "-", ".", "_", "/"])
        }
        V::JwtExpirationChecker => {
            let now = val::now();
            let h = rng.word(&["{\"alg\":\"HS256\"}", "{}", "{\"typ\":\"JWT\",\"x\":[1,2]}", "1", "\"é\""]);
            let p = match rng.below(5) {
                0 => "{}".to_string(),
                1 => "[1]".to_string(),
                2 => format!("{{\"exp\":{}}}", i64::MAX),
                _ => format!("{{\"sub\":\"{}\",\"exp\":{}}}", rng.below(1000), now + 5000 + rng.below(1 << 40) as i64),
            };
            let sl = rng.below(20);
            format!("{}.{}.{}", val::b64url(h.as_bytes()), val::b64url(p.as_bytes()), alnum_str(rng, sl))
        }
    }
}

fn check(case: &mut Case, v: &V, s: &str) -> Result<Option<bool>, Outcome> {
    let since = val::now();
    let got = match guarded(|| v.is_valid_match(s)) {
        Ok(b) => b,
        Err(i) => return Err(Outcome::Violated(format!("panic:{}", i.loc), format!("{v:?} panicked on {s:?}: {}", i.msg))),
    };
    case.tag("values judged");
    match val::valid(v, s, (since, val::now())) {
        None => {
            case.tag("values not decided by the oracle");
            Ok(None)
        }
        Some(w) if w == got => {
            case.tag(&format!("{v:?} {}", if w { "accepted" } else { "rejected" }));
            Ok(Some(w))
        }
        Some(w) => Err(Outcome::Violated(
            format!("{v:?}"),
            format!("{v:?} on {s:?}: expected {w}, observed {got}"),
        )),
    }
}

pub fn p12(ctx: &Ctx) {
    ctx.phase("values", opts(ctx, 7_000, 20.0), |case| {
        let v = ALL[case.n as usize % ALL.len()].clone();
        let s = valid_value(&v, &mut case.rng);
        match check(case, &v, &s) {
            Err(o) => return o,
            Ok(Some(false)) => panic!("the generator made an invalid {v:?}: {s:?}"),
            _ => {}
        }
        // every one-character corruption
        let cs: Vec<char> = s.chars().collect();
        let mk = |v: Vec<char>| v.into_iter().collect::<String>();
        let reps = "0123456789xXaZ_- .é٣３９²Ⅷ①𝟗ＸＡ๔\u{200b}\u{ad}";
        let stride = if cs.len() > 60 { 7 } else { 1 };
        for i in (0..cs.len()).step_by(stride) {
            let mut muts = vec![];
            for r in reps.chars() {
                let mut t = cs.clone();
                t[i] = r;
                muts.push(t);
            }
            let mut t = cs.clone();
            t.remove(i);
            muts.push(t);
            for r in ['0', '7', ' ', 'a', '.'] {
                let mut t = cs.clone();
                t.insert(i, r);
                muts.push(t);
            }
            if i + 1 < cs.len() {
                let mut t = cs.clone();
                t.swap(i, i + 1);
                muts.push(t);
            }
            muts.push(cs[..i].to_vec());
            muts.push(cs[i..].to_vec());
            for t in muts {
                let t = mk(t);
                if let Err(o) = check(case, &v, &t) {
                    return o;
                }
            }
        }
        // the shortest forms
        for t in ["_000000", "x_000000", "x_", "_", "x__000000", "x_00000", "x_0000000", "", " ", "0", "00", "x_1", "a_b_000000"] {
            if let Err(o) = check(case, &v, t) {
                return o;
            }
        }
        for t in [format!("{s}{s}"), s.to_lowercase(), s.to_uppercase(), format!(" {s} "), format!("0{s}"), format!("{s}0"), s.chars().rev().collect()] {
            if let Err(o) = check(case, &v, &t) {
                return o;
            }
        }
        case.sample = Some(json!({"validator": format!("{v:?}"), "value": s}));
        Outcome::Held(hash_str(&format!("{v:?}{s}")), true)
    });
    // JWT claims
    ctx.phase("claims", opts(ctx, 3_000, 10.0), |case| {
        let now = val::now();
        let rng = &mut case.rng;
        let exp = match rng.below(20) {
            0 => "null".to_string(),
            1 => "\"1\"".into(),
            2 => "1e30".into(),
            3 => format!("{}.5", now + 90000),
            4 => "-1".into(),
            5 => "0".into(),
            6 => "18446744073709551615".into(),
            7 => "9223372036854775808".into(),
            8 => format!("\"{}\"", now + 90000),
            9 => "true".into(),
            10 => format!("[{}]", now + 90000),
            11 => format!("{}", i64::MIN),
            12 => format!("{}", now - 601 - rng.below(100000) as i64),
            13 => format!("{}", now + 601 + rng.below(100000) as i64),
            14 => format!("{}", (now + 1_000_000) * 1000),
            15 => format!("{}", now - 3600),
            16 => format!("{}", now - rng.below(70) as i64),
            17 => format!("{}", now + 2 + rng.below(70) as i64),
            _ => now.to_string(),
        };
        let key = rng.word(&["exp", "exp", "exp", "exp", "EXP", "exp ", "iat"]);
        let body = match rng.below(4) {
            0 => format!("{{\"{key}\":{exp}}}"),
            1 => format!("{{\"a\":{{\"exp\":1}},\"{key}\":{exp}}}"),
            2 => format!("{{\"iat\":1,\"{key}\":{exp},\"z\":[]}}"),
            _ => format!(" {{ \"{key}\" : {exp} }} "),
        };
        let mut h = val::b64url(rng.word(&["{}", "{\"alg\":\"none\"}", "{", "", "x", "null"]).as_bytes());
        let mut b = val::b64url(body.as_bytes());
        match rng.below(10) {
            0 => h.push('='),
            1 => b.push_str("=="),
            2 => b = b.replace(['-', '_'], "+"),
            3 => {
                b.pop();
            }
            _ => {}
        }
        let s = match rng.below(8) {
            0 => format!("{h}.{b}"),
            1 => format!("{h}.{b}.c.d"),
            2 => format!("{h}.{b}."),
            _ => format!("{h}.{b}.sig"),
        };
        match check(case, &V::JwtExpirationChecker, &s) {
            Err(o) => o,
            Ok(_) => Outcome::Held(hash_str(&s), true),
        }
    });
    ctx.phase("garbage", opts(ctx, 30_000, 10.0), |case| {
        let len = case.rng.below(30);
        let al = case.rng.word(&["0123456789", "0123456789 -", "abcXx0123456789_", "é😏٣०1 2", "０１２３４５６７８９0123456789", "𝟎𝟏𝟐𝟑𝟒𝟓𝟔𝟕𝟖𝟗01234", "②²Ⅷ๔४0123456789", "ＡＢＸｘａ0123456789ABX", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "eyJ9.-_=", "\0\u{7f}\u{80}\u{fffd}1"]);
        let s: String = (0..len).map(|_| case.rng.pick_char(al)).collect();
        for v in ALL {
            if let Err(o) = check(case, v, &s) {
                return o;
            }
        }
        Outcome::Held(hash_str(&s), !s.is_empty())
    });
    // almost uniform values of the right lengths, with every separator
    ctx.phase("uniform", opts(ctx, 20_000, 8.0), |case| {
        let rng = &mut case.rng;
        let len = *rng.pick(&[1, 2, 9, 10, 11, 12, 13, 14, 15, 15, 16, 16, 17, 18, 18, 19, 20, 40]);
        let mut cs = vec![rng.pick_char("000123456789"); len];
        for _ in 0..rng.below(3) {
            let i = rng.below(len);
            cs[i] = rng.pick_char("0123456789xX");
        }
        if rng.chance(1, 3) {
            // all combinations of the last two digits
            let i = len - 1;
            cs[i] = rng.pick_char("0123456789xX");
            cs[i.saturating_sub(1)] = rng.pick_char("0123456789");
        }
        let sep = rng.word(&["", "", "", " ", "-", ".", "/", "\u{a0}", "–", "_"]);
        let group = rng.range(1, 5);
        let mut s = String::new();
        for (i, c) in cs.iter().enumerate() {
            if i > 0 && i % group == 0 {
                s.push_str(sep);
            }
            s.push(*c);
        }
        for v in ALL {
            if let Err(o) = check(case, v, &s) {
                return o;
            }
        }
        // and with the last digits that make it valid
        let d: Vec<u32> = cs.iter().filter_map(|c| c.to_digit(10)).collect();
        if d.len() == len {
            for last in 0..100u32 {
                let mut t = s.clone();
                let mut n = if len >= 2 { 2 } else { 1 };
                let mut x = last;
                let mut out: Vec<char> = vec![];
                while let Some(c) = t.pop() {
                    if n > 0 && c.is_ascii_digit() {
                        out.push((b'0' + (x % 10) as u8) as char);
                        x /= 10;
                        n -= 1;
                    } else {
                        out.push(c);
                    }
                }
                let t: String = out.into_iter().rev().collect();
                for v in [V::LuhnChecksum, V::NhsCheckDigit, V::NirChecksum, V::ChineseIdChecksum] {
                    if let Err(o) = check(case, &v, &t) {
                        return o;
                    }
                }
            }
        }
        Outcome::Held(hash_str(&s), true)
    });
    // all short numbers
    ctx.phase(
        "numbers",
        PhaseOpts {
            cases: 20,
            threads: 8,
            max_s: 60.0,
        },
        |case| {
            for k in 0..10_000u64 {
                let x = case.n * 10_000 + k;
                let s = if case.n < 10 { format!("{x}") } else { format!("{:010}", mix(x ^ ctx.seed) % 10_000_000_000) };
                for v in [V::LuhnChecksum, V::NhsCheckDigit] {
                    if let Err(o) = check(case, &v, &s) {
                        return o;
                    }
                }
                let s = format!("{:015}", mix(x ^ ctx.seed ^ 7) % 1_000_000_000_000_000);
                if let Err(o) = check(case, &V::NirChecksum, &s) {
                    return o;
                }
            }
            Outcome::Held(hash_str(&format!("n{}", case.n)), true)
        },
    );
    // through a scanner: a failed check does not hide what follows
    ctx.phase("scanned", opts(ctx, 15_000, 20.0), |case| {
        let rng = &mut case.rng;
        let k = Knobs::default();
        let _ = &k;
        let nr = rng.range(1, 3);
        let mut rules = vec![];
        let mut vs = vec![];
        for _ in 0..nr {
            let v = rng.pick(ALL).clone();
            let pat = match &v {
                V::LuhnChecksum | V::NhsCheckDigit | V::NirChecksum => *rng.pick(&["\\d[\\d -]{3,40}\\d", "[0-9]{4,19}", "\\d+", "[\\d ]{5,}"]),
                V::ChineseIdChecksum => *rng.pick(&["\\d{17}[\\dXx]", "[\\dxX]{18}", "\\w+"]),
                V::GithubTokenChecksum => *rng.pick(&["gh[a-z]_[A-Za-z0-9]+", "\\w+_\\w+", "[A-Za-z_0-9]{10,}"]),
                V::IbanChecker => *rng.pick(&["[A-Z]{2}\\d{2}[A-Z0-9 ]{8,40}", "[A-Z0-9]{10,}", "\\w+"]),
                V::JwtExpirationChecker => *rng.pick(&["ey[\\w-]+\\.[\\w-]+\\.[\\w-]*", "[\\w-]+\\.[\\w-]+\\.[\\w-]*", "[\\w.-]+"]),
            };
            let parsed = parse(pat).ok().expect("pattern");
            rules.push(MRule {
                rx: Rx {
                    pattern: pat.to_string(),
                    ..build(&parsed.node, &mut Rng::new(0), false)
                },
                node: parsed.node,
                act: if rng.chance(1, 2) { gen_action(rng) } else { Act::None },
                scope: MScope::all(),
                kw: None,
                validator: Some(v.clone()),
            });
            vs.push(v);
        }
        let mut content = String::new();
        for _ in 0..rng.range(1, 4) {
            content.push_str(rng.word(&["", " ", "  ", "1", "99", "x", "_", ".", "é", "-", "\n", "AB", "ey."]));
            let v = rng.pick(&vs).clone();
            let mut s = valid_value(&v, rng);
            if rng.chance(1, 3) {
                let mut cs: Vec<char> = s.chars().collect();
                let at = rng.below(cs.len());
                cs[at] = rng.pick_char("0123456789aA");
                s = cs.into_iter().collect();
            }
            content.push_str(&s);
        }
        let w = World {
            rules,
            feats: Features::default(),
            val: Val::Str(content),
            blocked: vec![],
        };
        run_world::<Utf8Encoding>(case, &w)
    });
}
