//! Properties of a scan that are decided by comparing with the reference scanner.
use crate::events::{field, gen_path, gen_tree, CharEncoding, UnitOf, Utf16Encoding, Val};
use crate::gen::*;
use crate::model::{self, Act, Features, MKw, MRule, MScope, ScanOut, P};
use crate::plugin::ScriptCfg;
use crate::rx::{build, gen_alt, GenOpts, Item, Node, Text};
use crate::util::*;
use dd_sds::{CreateScannerError, Encoding, Path, PathSegment, RuleConfig, Scanner, Utf8Encoding};
use serde_json::json;
use std::sync::Arc;

pub fn opts(ctx: &Ctx, cases: u64, s: f64) -> PhaseOpts {
    PhaseOpts {
        cases: ctx.n(cases),
        threads: 8,
        max_s: ctx.secs(s),
    }
}

/// One of the encodings, chosen per case.
pub fn run_any_encoding(case: &mut Case, w: &World) -> Outcome {
    match case.rng.below(3) {
        0 => run_world::<Utf8Encoding>(case, w),
        1 => run_world::<Utf16Encoding>(case, w),
        _ => run_world::<CharEncoding>(case, w),
    }
}

/// Now and then, the same text a long way into a long string.
fn maybe_pad(rng: &mut Rng, w: World) -> World {
    if !rng.chance(1, 150) {
        return w;
    }
    let mut w = w;
    if let Val::Str(s) = &mut w.val {
        let n = *rng.pick(&[250, 600, 1_100, 2_100, 4_200, 8_300, 8_300, 17_000, 33_000, 66_000]);
        let unit = *rng.pick(&[" ", ".", "- ", "é ", "ab ", " a"]);
        let mut fill = unit.repeat(n / unit.len() + 1);
        match rng.below(3) {
            0 => {
                // after it
                let more = s.clone();
                s.push_str(&fill);
                s.push_str(&more);
            }
            1 => s.insert_str(0, &fill),
            _ => {
                let at = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).nth(rng.below(s.chars().count() + 1)).unwrap();
                fill.push_str(&s[at..]);
                let tail = s[..at].to_string();
                *s = fill + &tail;
            }
        }
    }
    w
}

/// The same workload at another scale.
fn scale(ctx: &Ctx, k: &Knobs, cases: u64, secs: f64) {
    let k = Knobs { big: 100, ..k.clone() };
    ctx.phase("scale", opts(ctx, cases, secs), |case| {
        let w = gen_world(&mut case.rng, &k);
        case.tagn("strings", w.val.strings().len() as u64);
        run_any_encoding(case, &w)
    });
}

// ---------------------------------------------------------------- P01 detection

pub fn p01(ctx: &Ctx) {
    // the specific inputs of the known findings
    let known: [(&str, &str, &str, (usize, usize)); 2] = [
        ("engine-suffix-literal", r"\w+xc|c", " abcdxc ", (1, 7)),
        ("engine-prefix-merge", r".+x1c|.+[a-z]", "0x1cx", (0, 4)),
    ];
    ctx.phase(
        "engine",
        PhaseOpts {
            cases: known.len() as u64,
            threads: 1,
            max_s: 20.0,
        },
        |case| {
            let (sig, pattern, content, want) = known[case.n as usize];
            let s = Scanner::builder(&[dd_sds::RegexRuleConfig::new(pattern).build()])
                .build()
                .unwrap();
            let m = s.scan(&mut content.to_string(), vec![]);
            if m.len() == 1 && (m[0].start_index, m[0].end_index_exclusive) == want {
                Outcome::Held(case.n, true)
            } else {
                Outcome::Violated(
                    sig.into(),
                    format!("pattern `{pattern}` on {content:?}: expected one match {want:?}, observed {m:?}"),
                )
            }
        },
    );
    let k = Knobs::default();
    ctx.phase("random", opts(ctx, 40_000, 20.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_world::<Utf8Encoding>(case, &w)
    });
    let k = Knobs {
        rules: (1, 6),
        mutate: 40,
        depth: 3,
        strings: (1, 6),
        ..Knobs::default()
    };
    ctx.phase("trees", opts(ctx, 15_000, 12.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_any_encoding(case, &w)
    });
    // everything at once
    let k = Knobs {
        rules: (1, 6),
        inc: 25,
        exc: 25,
        validator: 10,
        scope: 30,
        blocked: 8,
        depth: 3,
        strings: (1, 6),
        path_keywords: 30,
        implicit: 30,
        no_multipass: 40,
        repeat: 15,
        ..Knobs::default()
    };
    ctx.phase("combined", opts(ctx, 15_000, 12.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_any_encoding(case, &w)
    });
    // many rules, long strings
    ctx.phase("large", opts(ctx, 250, 12.0), |case| {
        let k = Knobs {
            rules: (8, 40),
            simple: 100,
            pieces: (20, 60),
            depth: 2,
            strings: (2, 5),
            ..Knobs::default()
        };
        let mut w = gen_world(&mut case.rng, &k);
        // one string of several KB
        let mut long = String::new();
        let mut hot = vec![];
        let n = case.rng.range(10, 60);
        for _ in 0..n {
            long.push_str(&gen_content(&mut case.rng, &w.rules, &k, &mut hot));
        }
        case.tagn("bytes of long strings", long.len() as u64);
        w.val = Val::List(vec![w.val, Val::Str(long)]);
        run_world::<Utf8Encoding>(case, &w)
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, mutate: 40, ..Knobs::default() }, 800, 10.0);
}

// ---------------------------------------------------------------- P02 dialect

fn dialect_case(case: &mut Case, o: GenOpts, wide: bool) -> Outcome {
    let (node, rx) = loop {
        let node = gen_alt(&mut case.rng, o);
        let guarded = case.rng.chance(1, 2);
        let rx = build_rx(&node, &mut case.rng, o.fancy, guarded);
        match rx.find(&Text::new(""), 0) {
            Ok(None) => break (node, rx),
            _ => continue,
        }
    };
    let rule = MRule {
        node,
        rx,
        act: Act::None,
        scope: MScope::all(),
        kw: None,
        validator: None,
    };
    let rules = vec![rule];
    let k = Knobs {
        wide,
        ..Knobs::default()
    };
    let scanner = match build_scanner(&rules, Features::default()) {
        Ok(s) => s,
        Err(CreateScannerError::InvalidRegex(dd_sds::RegexValidationError::TooComplex)) => {
            return Outcome::Abstain("pattern too complex")
        }
        Err(e) => {
            return Outcome::Violated(
                "rejected".into(),
                format!("a pattern of the dialect was rejected with {e:?}: {:?}", rules[0].rx.pattern),
            )
        }
    };
    let mut nontrivial = false;
    let mut seen = vec![];
    for _ in 0..6 {
        let content = gen_content(&mut case.rng, &rules, &k, &mut vec![]);
        let w = World {
            rules: rules.clone(),
            feats: Features::default(),
            val: Val::Str(content.clone()),
            blocked: vec![],
        };
        let out = match model::scan(&rules, w.feats, &w.val.strings(), &[]) {
            Ok(o) => o,
            Err(_) => {
                case.tag("contents not judged (matcher step limit)");
                continue;
            }
        };
        let obs = match observe::<Utf8Encoding>(&scanner, &w.val, &[]) {
            Ok(o) => o,
            Err((s, d)) => return Outcome::Violated(s, format!("{d}\n{}", w.describe())),
        };
        if let Some((s, d)) = diff(&rules, &w.val, &out, model::Unit::Utf8, &obs) {
            if engine_defect::<Utf8Encoding>(&w, &out) {
                return Outcome::Abstain("regex engine literal optimisation (known finding)");
            }
            return Outcome::Violated(s, format!("{d}\n{}", w.describe()));
        }
        case.tagn("contents with matches", !out.matches.is_empty() as u64);
        case.tagn("contents without matches", out.matches.is_empty() as u64);
        case.tagn("matches", out.matches.len() as u64);
        nontrivial |= !out.matches.is_empty();
        seen.push(json!({"content": content, "matches": out.matches.iter().map(|m| (m.start, m.end)).collect::<Vec<_>>()}));
    }
    let p = &rules[0].rx.pattern;
    for (t, s) in [
        ("uses \\Q", "\\Q"),
        ("uses flags", "(?"),
        ("uses posix class", "[:"),
        ("uses property", "\\p{"),
        ("uses lazy", "}?"),
        ("uses $", "$"),
        ("uses \\Z", "\\Z"),
        ("uses \\b", "\\b"),
        ("uses hex", "\\x"),
        ("uses control", "\\c"),
        ("uses \\h", "\\h"),
        ("uses negated class", "[^"),
        ("uses x flag", "x"),
    ] {
        if p.contains(s) {
            case.tag(t);
        }
    }
    case.sample = Some(json!({"pattern": p, "contents": seen}));
    Outcome::Held(hash_str(p), nontrivial)
}

pub fn p02(ctx: &Ctx) {
    let base = GenOpts {
        depth: 3,
        fancy: true,
        flags: true,
        asserts: true,
    };
    ctx.phase("fancy", opts(ctx, 30_000, 25.0), |case| dialect_case(case, base, true));
    ctx.phase("plain", opts(ctx, 10_000, 10.0), |case| {
        dialect_case(
            case,
            GenOpts {
                depth: 2,
                fancy: false,
                ..base
            },
            false,
        )
    });
    // large counts, exactly at their bounds
    ctx.phase("counts", opts(ctx, 1_500, 8.0), |case| {
        let rng = &mut case.rng;
        let unit = rng.word(&["a", "[ab]", "(?:ab)", "\\d", "é", "[^x-z]", "(?:a|b)", "\\x{61}", "(b)"]);
        let text = match unit {
            "[ab]" | "(?:a|b)" | "a" | "\\x{61}" | "[^x-z]" => "a",
            "(?:ab)" => "ab",
            "\\d" => "7",
            "(b)" => "b",
            _ => "é",
        };
        let big = |rng: &mut Rng| match rng.below(8) {
            0 => rng.below(4),
            1 => *rng.pick(&[255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2999, 3000]),
            2 | 3 => rng.below(3001),
            4 | 5 => rng.below(400),
            _ => rng.below(40),
        };
        let (m, top) = (big(rng), big(rng));
        let (m, top) = (m.min(top), m.max(top));
        let (q, lo, hi) = match rng.below(4) {
            0 => (format!("{{{m}}}"), m, Some(m)),
            1 => (format!("{{{m},}}"), m, None),
            2 => (format!("{{0,{top}}}"), 0, Some(top)),
            _ => (format!("{{{m},{top}}}"), m, Some(top)),
        };
        let lazy = rng.chance(1, 2);
        let closed = rng.chance(2, 3);
        let p = format!("x{unit}{q}{}{}", if lazy { "?" } else { "" }, if closed { "y" } else { "" });
        let scanner = match Scanner::builder(&[dd_sds::RegexRuleConfig::new(&p).build()]).build() {
            Ok(s) => s,
            Err(dd_sds::CreateScannerError::InvalidRegex(dd_sds::RegexValidationError::TooComplex)) => {
                return Outcome::Abstain("too complex");
            }
            Err(e) => return Outcome::Violated("rejected".into(), format!("pattern {p}: {e:?}")),
        };
        let top = hi.unwrap_or(lo + 500);
        for l in [0, 1, lo.saturating_sub(1), lo, lo + 1, (lo + top) / 2, top.saturating_sub(1), top, top + 1, top + 700] {
            let content = format!("-x{}y-", text.repeat(l));
            let want: Vec<(usize, usize)> = if closed {
                if l >= lo && hi.map_or(true, |h| l <= h) { vec![(1, 3 + l * text.len())] } else { vec![] }
            } else if l >= lo {
                let taken = if lazy { lo } else { l.min(hi.unwrap_or(l)) };
                vec![(1, 2 + taken * text.len())]
            } else {
                vec![]
            };
            let got: Vec<(usize, usize)> =
                scanner.scan(&mut content.clone(), vec![]).iter().map(|m| (m.start_index, m.end_index_exclusive)).collect();
            if got != want {
                return Outcome::Violated(
                    "count".into(),
                    format!("pattern {p} on -x, {l} times {text:?}, y-: expected {want:?}, observed {got:?}"),
                );
            }
            case.tag("contents at the bound of a count");
        }
        Outcome::Held(hash_str(&p), true)
    });
    // every one-atom pattern against every character of the alphabet, in all flag settings
    let mut atoms: Vec<Node> = vec![Node::Dot];
    for p in "dswDSWhHvV".chars() {
        atoms.push(Node::Perl(p));
        atoms.push(Node::Class(vec![Item::Perl(p)], false));
        atoms.push(Node::Class(vec![Item::Perl(p)], true));
        atoms.push(Node::Class(vec![Item::Perl(p), Item::Ch('a'), Item::Ch('-')], false));
    }
    for a in crate::rx::ASCII_CLASSES {
        for (x, y) in [(false, false), (false, true), (true, false), (true, true)] {
            atoms.push(Node::Class(vec![Item::Ascii(a, x)], y));
        }
    }
    for p in crate::rx::PROP_NAMES {
        for n in [false, true] {
            atoms.push(Node::Prop(p, n));
            atoms.push(Node::Class(vec![Item::Prop(p, n)], false));
            atoms.push(Node::Class(vec![Item::Prop(p, n)], true));
        }
    }
    for c in crate::rx::ALPHABET.chars() {
        for _ in 0..2 {
            atoms.push(Node::Lit(c));
            atoms.push(Node::Class(vec![Item::Ch(c)], false));
            atoms.push(Node::Class(vec![Item::Ch(c), Item::Ch('q')], true));
        }
        atoms.push(Node::Quote(c.to_string()));
        atoms.push(Node::Quote(format!("a{c}")));
        atoms.push(Node::Quote(format!("{c}\\")));
    }
    let flags: Vec<Vec<char>> = vec![vec![], vec!['i'], vec!['s'], vec!['m'], vec!['x'], vec!['i', 's', 'm', 'x']];
    let total = (atoms.len() * flags.len()) as u64;
    ctx.phase(
        "atoms",
        PhaseOpts {
            cases: total,
            threads: 8,
            max_s: 60.0,
        },
        |case| {
            let n = case.n as usize;
            let atom = &atoms[n / flags.len()];
            let fl = &flags[n % flags.len()];
            let node = if fl.is_empty() {
                atom.clone()
            } else {
                Node::Cat(vec![Node::SetFlags(fl.clone(), vec![]), atom.clone()])
            };
            let rules = vec![MRule {
                rx: build(&node, &mut case.rng, true),
                node,
                act: Act::None,
                scope: MScope::all(),
                kw: None,
                validator: None,
            }];
            let scanner = match build_scanner(&rules, Features::default()) {
                Ok(s) => s,
                Err(e) => {
                    return Outcome::Violated(
                        "rejected".into(),
                        format!("a pattern of the dialect was rejected with {e:?}: {:?}", rules[0].rx.pattern),
                    )
                }
            };
            for c in crate::rx::ALPHABET.chars() {
                let content = c.to_string();
                let val = Val::Str(content.clone());
                let out = model::scan(&rules, Features::default(), &val.strings(), &[]).unwrap();
                let obs = match observe::<Utf8Encoding>(&scanner, &val, &[]) {
                    Ok(o) => o,
                    Err((s, d)) => return Outcome::Violated(s, d),
                };
                case.tag("atom x character pairs");
                if let Some((s, d)) = diff(&rules, &val, &out, model::Unit::Utf8, &obs) {
                    return Outcome::Violated(
                        s,
                        format!("pattern {:?} on {content:?}: {d}", rules[0].rx.pattern),
                    );
                }
            }
            case.sample = Some(json!({"pattern": rules[0].rx.pattern, "content": "each character of the alphabet"}));
            Outcome::Held(hash_str(&rules[0].rx.pattern), true)
        },
    );
    super::chars::run(ctx);
    super::chars::run_more(ctx);
    // assertions and multi-line text, exhaustively over short contents
    let pats: Vec<Node> = {
        let l = |c| Node::Lit(c);
        let a = |c| Node::Assert(c);
        let mut v = vec![];
        for x in ['^', '$', 'b', 'B', 'A', 'z', 'Z'] {
            for m in [false, true] {
                let f = |mut n: Vec<Node>| {
                    if m {
                        n.insert(0, Node::SetFlags(vec!['m'], vec![]));
                    }
                    Node::Cat(n)
                };
                v.push(f(vec![l('a'), a(x)]));
                v.push(f(vec![a(x), l('a')]));
                v.push(f(vec![l('a'), a(x), l('\n')]));
                v.push(f(vec![rep(l('a'), 1, None), a(x)]));
                v.push(f(vec![l('a'), rep(a(x), 0, Some(1)), l('b')]));
                v.push(f(vec![l('a'), rep(a(x), 1, Some(1))]));
                v.push(f(vec![rep(Node::Dot, 1, None), a(x)]));
                v.push(f(vec![Node::Group(1, vec![], vec![], Box::new(Node::Alt(vec![Node::Cat(vec![l('a'), a(x)]), l('b')]))), l('b')]));
                v.push(f(vec![cls(vec![Item::Ch('a'), Item::Ch('\n')]), a(x)]));
            }
        }
        v
    };
    ctx.phase(
        "assertions",
        PhaseOpts {
            cases: pats.len() as u64,
            threads: 8,
            max_s: 60.0,
        },
        |case| {
            let node = pats[case.n as usize].clone();
            let mut rx = build(&node, &mut case.rng, false);
            rx.pattern = guard_a(&rx.pattern);
            if !matches!(rx.find(&Text::new(""), 0), Ok(None)) {
                return Outcome::Abstain("matches the empty string");
            }
            let rules = vec![MRule {
                rx,
                node,
                act: Act::None,
                scope: MScope::all(),
                kw: None,
                validator: None,
            }];
            let scanner = match build_scanner(&rules, Features::default()) {
                Ok(s) => s,
                Err(e) => return Outcome::Violated("rejected".into(), format!("{e:?}: {:?}", rules[0].rx.pattern)),
            };
            let al = ['a', 'b', '\n', ' '];
            for len in 1..=5usize {
                for mut code in 0..al.len().pow(len as u32) {
                    let mut content = String::new();
                    for _ in 0..len {
                        content.push(al[code % al.len()]);
                        code /= al.len();
                    }
                    let val = Val::Str(content.clone());
                    let out = model::scan(&rules, Features::default(), &val.strings(), &[]).unwrap();
                    let obs = match observe::<Utf8Encoding>(&scanner, &val, &[]) {
                        Ok(o) => o,
                        Err((s, d)) => return Outcome::Violated(s, d),
                    };
                    case.tag("assertion pattern x content pairs");
                    if let Some((s, d)) = diff(&rules, &val, &out, model::Unit::Utf8, &obs) {
                        return Outcome::Violated(s, format!("pattern {:?} on {content:?}: {d}", rules[0].rx.pattern));
                    }
                }
            }
            Outcome::Held(hash_str(&rules[0].rx.pattern), true)
        },
    );
}

// ---------------------------------------------------------------- scripted matches

/// Rules that emit given ranges: every arrangement of matches can be produced.
pub struct Scripted {
    pub acts: Vec<Act>,
    pub content: String,
    pub cands: Vec<(usize, usize, usize)>,
}

pub fn gen_scripted(rng: &mut Rng, max_rules: usize, max_matches: usize, mutate: usize, wide: bool) -> Scripted {
    let n = rng.range(1, 24);
    let mut content = String::new();
    for _ in 0..n {
        content.push(if wide {
            rng.pick_char("ab0é€😏漢ñ\u{301}")
        } else {
            rng.pick_char("abcdefgh")
        });
    }
    let byte = Text::new(&content).byte;
    let nr = rng.range(1, max_rules);
    let acts: Vec<Act> = (0..nr)
        .map(|_| {
            if rng.below(100) < mutate {
                gen_action(rng)
            } else {
                Act::None
            }
        })
        .collect();
    let mut cands = vec![];
    for _ in 0..rng.range(1, max_matches) {
        let s = rng.below(n);
        let len = rng.range(1, 8);
        let e = rng.range(s + 1, n.min(s + len).max(s + 1));
        cands.push((rng.below(nr), byte[s], byte[e]));
    }
    if rng.chance(1, 4) {
        let c = *rng.pick(&cands);
        cands.push((rng.below(nr), c.1, c.2));
    }
    Scripted { acts, content, cands }
}

pub fn run_scripted<E: Encoding + UnitOf>(case: &mut Case, sc: &Scripted) -> Outcome {
    let cfg: Vec<Arc<dyn RuleConfig>> = sc
        .acts
        .iter()
        .enumerate()
        .map(|(i, a)| {
            let r: Vec<(usize, usize)> = sc
                .cands
                .iter()
                .filter(|c| c.0 == i)
                .map(|c| (c.1, c.2))
                .collect();
            Arc::new(ScriptCfg::ranges(a.clone(), r)) as Arc<dyn RuleConfig>
        })
        .collect();
    let scanner = Scanner::builder(&cfg).build().unwrap();
    let val = Val::Str(sc.content.clone());
    let mut o = ScanOut::default();
    o.touched.push(true);
    model::apply_string(&mut o, 0, &Path::root(), &sc.content, sc.cands.clone(), &sc.acts);
    let describe = || format!("content {:?}\nactions {:?}\nemitted (rule, start, end) {:?}", sc.content, sc.acts, sc.cands);
    let obs = match observe::<E>(&scanner, &val, &[]) {
        Ok(o) => o,
        Err((s, d)) => return Outcome::Violated(s, format!("{d}\n{}", describe())),
    };
    case.tagn("matches reported", o.matches.len() as u64);
    case.tagn("matches removed by overlap", o.overlapped as u64);
    for m in &o.matches {
        case.tagn(if sc.acts[m.rule].mutates() { "mutating kept" } else { "non-mutating kept" }, 1);
    }
    if let Some((s, d)) = diff_acts(&sc.acts, &val, &o, E::UNIT, &obs) {
        return Outcome::Violated(s, format!("{d}\n{}", describe()));
    }
    case.sample = Some(json!({"content": sc.content, "actions": format!("{:?}", sc.acts), "emitted": sc.cands, "kept": o.matches.iter().map(|m| (m.rule, m.start, m.end)).collect::<Vec<_>>(), "output": o.outputs}));
    Outcome::Held(hash_str(&describe()), sc.cands.len() > 1)
}

// ---------------------------------------------------------------- P04 overlaps

pub fn p04(ctx: &Ctx) {
    ctx.phase("scripted", opts(ctx, 60_000, 15.0), |case| {
        let mutate = *case.rng.pick(&[0, 30, 60, 100]);
        let sc = gen_scripted(&mut case.rng, 5, 10, mutate, false);
        run_scripted::<Utf8Encoding>(case, &sc)
    });
    // every arrangement of three matches of three rules on a short string
    let ranges: Vec<(usize, usize)> = (0..4usize)
        .flat_map(|s| (s + 1..=4).map(move |e| (s, e)))
        .collect();
    let n = ranges.len() as u64;
    ctx.phase(
        "exhaustive",
        PhaseOpts {
            cases: n * n,
            threads: 8,
            max_s: 60.0,
        },
        |case| {
            let (a, b) = (ranges[(case.n / n) as usize], ranges[(case.n % n) as usize]);
            for c in &ranges {
                for mask in 0..8usize {
                    let act = |i: usize| {
                        if mask >> i & 1 == 1 {
                            Act::Redact(["X", "", "longer"][i].to_string())
                        } else {
                            Act::None
                        }
                    };
                    let sc = Scripted {
                        acts: vec![act(0), act(1), act(2)],
                        content: "abcd".into(),
                        cands: vec![(0, a.0, a.1), (1, b.0, b.1), (2, c.0, c.1)],
                    };
                    match run_scripted::<Utf8Encoding>(case, &sc) {
                        Outcome::Held(..) => {}
                        other => return other,
                    }
                    case.tag("exhaustive arrangements");
                }
            }
            Outcome::Held(case.n, true)
        },
    );
    // overlaps between regex rules
    let k = Knobs {
        rules: (2, 6),
        simple: 95,
        mutate: 60,
        pieces: (2, 8),
        ..Knobs::default()
    };
    ctx.phase("regex", opts(ctx, 20_000, 12.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_world::<Utf8Encoding>(case, &w)
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, mutate: 60, rules: (2, 5), ..Knobs::default() }, 600, 8.0);
}

// ---------------------------------------------------------------- P05 redaction

pub fn p05(ctx: &Ctx) {
    ctx.phase("scripted", opts(ctx, 40_000, 12.0), |case| {
        let sc = gen_scripted(&mut case.rng, 5, 8, 90, true);
        run_scripted::<Utf8Encoding>(case, &sc)
    });
    let k = Knobs {
        rules: (1, 5),
        mutate: 95,
        simple: 80,
        depth: 3,
        strings: (1, 5),
        ..Knobs::default()
    };
    ctx.phase("regex", opts(ctx, 20_000, 12.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_world::<Utf8Encoding>(case, &w)
    });
    // each action against texts of every length, with characters of every width
    ctx.phase("actions", opts(ctx, 20_000, 12.0), |case| {
        // mostly short, now and then a match of up to 3,000 characters
        let n = if case.rng.chance(1, 6) { 1 << case.rng.range(5, 11) } else { 20 };
        let n = case.rng.range(1, n * 2);
        let body: String = (0..n).map(|_| case.rng.pick_char("a0é€😏漢")).collect();
        let act = match case.rng.below(6) {
            0 => Act::First(case.rng.range(1, n + 10)),
            1 => Act::Last(case.rng.range(1, n + 10)),
            2 => Act::First(n.saturating_sub(1).max(1) + case.rng.below(3)),
            3 => Act::Last(n.saturating_sub(1).max(1) + case.rng.below(3)),
            4 => Act::Hash,
            _ => Act::Utf16Hash,
        };
        let pre: String = (0..case.rng.below(4)).map(|_| case.rng.pick_char("<é😏")).collect();
        let post: String = (0..case.rng.below(4)).map(|_| case.rng.pick_char(">é😏")).collect();
        let content = format!("{pre}{body}{post}");
        let sc = Scripted {
            acts: vec![act.clone()],
            cands: vec![(0, pre.len(), pre.len() + body.len())],
            content: content.clone(),
        };
        let r = run_scripted::<Utf8Encoding>(case, &sc);
        if let Outcome::Held(..) = r {
            case.tag(&format!("{act:?}").split('(').next().unwrap().to_string());
            return Outcome::Held(hash_str(&format!("{content}{act:?}")), true);
        }
        r
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, mutate: 85, ..Knobs::default() }, 800, 10.0);
}

// ---------------------------------------------------------------- P06 indices

pub fn p06(ctx: &Ctx) {
    for (name, which) in [("utf8", 0), ("utf16", 1), ("chars", 2)] {
        ctx.phase(&format!("scripted-{name}"), opts(ctx, 15_000, 8.0), |case| {
            let sc = gen_scripted(&mut case.rng, 5, 8, 60, true);
            match which {
                0 => run_scripted::<Utf8Encoding>(case, &sc),
                1 => run_scripted::<Utf16Encoding>(case, &sc),
                _ => run_scripted::<CharEncoding>(case, &sc),
            }
        });
    }
    let k = Knobs {
        rules: (1, 5),
        mutate: 60,
        simple: 70,
        depth: 3,
        strings: (1, 5),
        wide: true,
        ..Knobs::default()
    };
    ctx.phase("regex", opts(ctx, 20_000, 12.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_any_encoding(case, &w)
    });
    // deletions and growth in sequence: many adjacent matches in one string
    ctx.phase("adjacent", opts(ctx, 10_000, 8.0), |case| {
        let n = case.rng.range(2, 20);
        let content: String = (0..n * 2).map(|_| case.rng.pick_char("aé€😏")).collect();
        let byte = Text::new(&content).byte;
        let nr = case.rng.range(1, 4);
        let acts: Vec<Act> = (0..nr)
            .map(|_| {
                if case.rng.chance(3, 4) {
                    gen_action(&mut case.rng)
                } else {
                    Act::None
                }
            })
            .collect();
        let mut cands = vec![];
        let mut at = 0;
        while at < 2 * n {
            let e = (at + case.rng.range(1, 3)).min(2 * n);
            if case.rng.chance(4, 5) {
                cands.push((case.rng.below(nr), byte[at], byte[e]));
            }
            at = e;
        }
        case.rng.shuffle(&mut cands);
        if cands.is_empty() {
            return Outcome::Abstain("no matches");
        }
        let sc = Scripted { acts, content, cands };
        match case.rng.below(3) {
            0 => run_scripted::<Utf8Encoding>(case, &sc),
            1 => run_scripted::<Utf16Encoding>(case, &sc),
            _ => run_scripted::<CharEncoding>(case, &sc),
        }
    });
    // long strings, long matches, long replacements
    ctx.phase("long", opts(ctx, 600, 8.0), |case| {
        let rng = &mut case.rng;
        let unit = *rng.pick(&["a", "é", "€", "😏", "aé", "a😏€"]);
        let n = *rng.pick(&[70usize, 140, 300, 3_000, 17_000, 34_000, 66_000]);
        let content: String = unit.chars().cycle().take(n + rng.below(5)).collect();
        let byte = Text::new(&content).byte;
        let nc = byte.len() - 1;
        let nr = rng.range(1, 3);
        let acts: Vec<Act> = (0..nr)
            .map(|_| match rng.below(6) {
                0 => Act::None,
                1 => Act::Redact(rng.word(&["x", "é", "😏", "a€"]).repeat(*rng.pick(&[1, 40, 130, 9_000, 33_000]))),
                2 => Act::First(*rng.pick(&[1, 127, 128, 255, 300, 33_000])),
                3 => Act::Last(*rng.pick(&[1, 127, 128, 255, 300, 33_000])),
                _ => gen_action(rng),
            })
            .collect();
        let mut cands = vec![];
        let mut at = rng.below(nc);
        let step = *rng.pick(&[3, 50, 400, 20_000, 70_000]);
        while at < nc && cands.len() < 60 {
            let e = (at + rng.range(1, step)).min(nc);
            cands.push((rng.below(nr), byte[at], byte[e]));
            at = e + rng.below(step);
            if rng.chance(1, 20) {
                at += *rng.pick(&[127, 255, 5_000, 40_000]);
            }
        }
        case.tag(if nc > 65_536 { "more than 65536 characters" } else { "fewer characters" });
        let sc = Scripted { acts, content, cands };
        match case.rng.below(3) {
            0 => run_scripted::<Utf8Encoding>(case, &sc),
            1 => run_scripted::<Utf16Encoding>(case, &sc),
            _ => run_scripted::<CharEncoding>(case, &sc),
        }
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, mutate: 75, wide: true, ..Knobs::default() }, 800, 10.0);
}

// ---------------------------------------------------------------- P07 included keywords

fn keyword_world(rng: &mut Rng, k: &Knobs) -> World {
    let mut w = gen_world(rng, k);
    // reuse keyword lists between rules now and then
    if w.rules.len() > 1 && rng.chance(1, 4) {
        let kw = w.rules[0].kw.clone();
        w.rules[1].kw = kw;
    }
    w
}

/// A window test: keyword, gap of every width around the limit, match.
fn window_case(case: &mut Case, included: bool) -> Outcome {
    let rng = &mut case.rng;
    let n = rng.range(1, 50);
    let word = loop {
        let w = rng.word(&["k", "id", "key", "api key", "é", "é1", "#", "a-b", "x_y", "ssn:", "(n)", "1"]);
        if w.chars().count() <= n {
            break w;
        }
    };
    let before: String = (0..rng.below(4)).map(|_| rng.pick_char(" é😏.a_-")).collect();
    let target = (n + 3).saturating_sub(rng.below(7)).max(word.chars().count());
    let gap = target - word.chars().count();
    let fill = *rng.pick(&[" ", "é", "😏", ".", "-", "_", "x", " -"]);
    let mut g: String = String::new();
    while g.chars().count() < gap {
        g.push_str(fill);
    }
    let mut g: String = g.chars().take(gap).collect();
    if gap > 0 && rng.chance(1, 2) {
        g.remove(0);
        g.insert(0, ' ');
    }
    let after = rng.word(&["", " ", "a", "-", "_", "é", " key 1234"]);
    let (node, m) = match rng.below(4) {
        0 => (rep(Node::Perl('d'), 4, Some(4)), "1234"),
        1 => (Node::Cat(vec![Node::Lit('-'), rep(Node::Perl('d'), 2, None)]), "-987"),
        2 => (Node::Cat(vec![Node::Lit('_'), rep(Node::Perl('w'), 2, Some(3))]), "_wz"),
        _ => (lit("😏é"), "😏é"),
    };
    let mut listed = vec![word.to_string()];
    if rng.chance(1, 4) {
        let x = pad(rng, word);
        if x.chars().count() <= n {
            listed = vec![x];
        }
    }
    if rng.chance(1, 10) {
        // the last of many
        let mut v: Vec<String> = (0..rng.range(20, 49)).map(|i| format!("{}", i % 10)).map(|x| if x == word { "7".into() } else { x }).collect();
        v.append(&mut listed);
        listed = v;
    }
    let kw_text = if rng.chance(1, 4) { word.to_uppercase() } else { word.to_string() };
    let content = format!("{before}{kw_text}{g}{m}{after}");
    let mut rx = build(&node, rng, false);
    if rng.chance(1, 2) {
        rx.pattern = guard_a(&rx.pattern);
    }
    let rule = MRule {
        rx,
        node,
        act: if rng.chance(1, 2) { Act::Redact("[X]".into()) } else { Act::None },
        scope: MScope::all(),
        kw: Some(MKw {
            n,
            inc: if included { listed.clone() } else { vec![] },
            exc: if included { vec![] } else { listed },
        }),
        validator: None,
    };
    let w = World {
        rules: vec![rule],
        feats: Features::default(),
        val: Val::Str(content),
        blocked: vec![],
    };
    let w = maybe_pad(&mut case.rng, w);
    match run_world::<Utf8Encoding>(case, &w) {
        Outcome::Held(h, _) => {
            case.tag(if model::scan(&w.rules, w.feats, &w.val.strings(), &[]).is_ok_and(|o| !o.matches.is_empty()) {
                "window: match reported"
            } else {
                "window: match not reported"
            });
            Outcome::Held(h, true)
        }
        o => o,
    }
}

/// Keywords and text over very few characters: every way for keywords to touch, overlap and lie at the edge of the window.
fn tiny_case(case: &mut Case, included: bool, excluded: bool) -> Outcome {
    let rng = &mut case.rng;
    let n = rng.range(1, 6);
    let alpha = *rng.pick(&["a- ", "a_-", "aé#", "a1b", "aA.", "ab ", "aé-😏", "a_/"]);
    let word = |rng: &mut Rng| loop {
        let w: String = (0..rng.range(1, n.min(3))).map(|_| rng.pick_char(alpha)).collect();
        if w.trim().chars().any(|c| c != '-' && c != '_') && w == w.trim() {
            return w;
        }
    };
    let list = |rng: &mut Rng, on: bool| -> Vec<String> {
        if on {
            (0..rng.range(1, 3)).map(|_| word(rng)).collect()
        } else {
            vec![]
        }
    };
    let (inc, exc) = (list(rng, included), list(rng, excluded));
    let mut content = String::new();
    for _ in 0..rng.range(1, 3) {
        for _ in 0..rng.below(n + 5) {
            content.push(rng.pick_char(alpha));
        }
        content.push_str(rng.word(&["7", "77", "78", "7a7", "-7", "_7"]));
    }
    if rng.chance(1, 3) {
        content.push(rng.pick_char(alpha));
    }
    let node = match rng.below(4) {
        0 => Node::Lit('7'),
        1 => rep(Node::Class(vec![Item::Ch('7'), Item::Ch('8')], false), 1, None),
        2 => Node::Cat(vec![rep(Node::Lit('-'), 0, Some(1)), Node::Lit('7')]),
        _ => Node::Cat(vec![Node::Class(vec![Item::Ch('a'), Item::Ch('-'), Item::Ch('_')], false), Node::Lit('7')]),
    };
    let rule = MRule {
        rx: build(&node, rng, false),
        node,
        act: if rng.chance(1, 3) { Act::Redact("".into()) } else { Act::None },
        scope: MScope::all(),
        kw: Some(MKw { n, inc, exc }),
        validator: None,
    };
    let w = World {
        rules: vec![rule],
        feats: Features::default(),
        val: Val::Str(content),
        blocked: vec![],
    };
    let w = maybe_pad(&mut case.rng, w);
    run_world::<Utf8Encoding>(case, &w)
}

pub fn p07(ctx: &Ctx) {
    ctx.phase("tiny", opts(ctx, 60_000, 12.0), |case| {
        let both = case.rng.chance(1, 5);
        tiny_case(case, true, both)
    });
    ctx.phase("window", opts(ctx, 30_000, 12.0), |case| window_case(case, true));
    let k = Knobs {
        rules: (1, 4),
        inc: 100,
        simple: 75,
        pieces: (3, 12),
        ..Knobs::default()
    };
    ctx.phase("random", opts(ctx, 40_000, 20.0), |case| {
        let w = keyword_world(&mut case.rng, &k);
        run_world::<Utf8Encoding>(case, &w)
    });
    let k = Knobs {
        inc: 100,
        exc: 40,
        validator: 20,
        depth: 2,
        strings: (1, 4),
        ..k
    };
    ctx.phase("trees", opts(ctx, 15_000, 12.0), |case| {
        let w = keyword_world(&mut case.rng, &k);
        run_any_encoding(case, &w)
    });
    // lookahead windows in text with several keywords and matches
    ctx.phase("dense", opts(ctx, 20_000, 12.0), |case| {
        let rng = &mut case.rng;
        let n = rng.range(2, 12);
        let words = ["ab", "id", "zz"];
        let mut content = String::new();
        for _ in 0..rng.range(4, 16) {
            match rng.below(4) {
                0 => content.push_str(rng.word(&words)),
                1 => {
                    for _ in 0..rng.range(1, 4) {
                        content.push(rng.pick_char("0123456789"));
                    }
                }
                _ => {
                    for _ in 0..rng.range(1, 5) {
                        content.push(rng.pick_char(" . é"));
                    }
                }
            }
        }
        let node = match rng.below(3) {
            0 => rep(Node::Perl('d'), 2, None),
            1 => rep(Node::Perl('d'), 1, Some(2)),
            _ => rep(Node::Perl('w'), 2, None),
        };
        let rule = MRule {
            rx: build(&node, rng, false),
            node,
            act: Act::None,
            scope: MScope::all(),
            kw: Some(MKw {
                n,
                inc: words[..rng.range(1, 3)].iter().map(|x| x.to_string()).collect(),
                exc: vec![],
            }),
            validator: None,
        };
        let w = World {
            rules: vec![rule],
            feats: Features::default(),
            val: Val::Str(content),
            blocked: vec![],
        };
        let w = maybe_pad(&mut case.rng, w);
        run_world::<Utf8Encoding>(case, &w)
    });
    // keywords of several words that overlap each other or lie within each other
    ctx.phase("overlapping", opts(ctx, 30_000, 12.0), |case| {
        let rng = &mut case.rng;
        let words: Vec<&str> = (0..rng.range(2, 5)).map(|_| rng.word(&["my", "card", "no", "a", "é", "id"])).collect();
        let sep = rng.word(&[" ", "-", "_", ".", "/"]);
        let n = rng.range(4, 24);
        let mut inc = vec![];
        for _ in 0..rng.range(1, 4) {
            let a = rng.below(words.len());
            let b = rng.range(a + 1, words.len());
            let k = words[a..b].join(sep);
            if k.chars().count() <= n {
                inc.push(k);
            }
        }
        if inc.is_empty() {
            inc.push("id".into());
        }
        let mut content = String::new();
        for _ in 0..rng.range(1, 3) {
            for _ in 0..rng.below(6) {
                content.push(rng.pick_char(" .é"));
            }
            for _ in 0..rng.range(1, 2) {
                content.push_str(&words.join(sep));
                content.push_str(rng.word(&["", sep, " "]));
            }
            for _ in 0..rng.below(n + 3) {
                content.push(rng.pick_char(" .é"));
            }
            for _ in 0..rng.range(1, 4) {
                content.push(rng.pick_char("0123456789"));
            }
        }
        let node = rep(Node::Perl('d'), 2, None);
        let rule = MRule {
            rx: build(&node, rng, false),
            node,
            act: Act::None,
            scope: MScope::all(),
            kw: Some(MKw { n, inc, exc: vec![] }),
            validator: None,
        };
        let w = World {
            rules: vec![rule],
            feats: Features::default(),
            val: Val::Str(content),
            blocked: vec![],
        };
        let w = maybe_pad(&mut case.rng, w);
        run_world::<Utf8Encoding>(case, &w)
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, inc: 100, ..Knobs::default() }, 800, 10.0);
}

// ---------------------------------------------------------------- P08 excluded keywords

pub fn p08(ctx: &Ctx) {
    ctx.phase("tiny", opts(ctx, 60_000, 12.0), |case| {
        let both = case.rng.chance(1, 5);
        tiny_case(case, both, true)
    });
    ctx.phase("window", opts(ctx, 30_000, 12.0), |case| window_case(case, false));
    let k = Knobs {
        rules: (1, 4),
        exc: 100,
        simple: 75,
        pieces: (3, 12),
        ..Knobs::default()
    };
    ctx.phase("random", opts(ctx, 40_000, 20.0), |case| {
        let w = keyword_world(&mut case.rng, &k);
        run_world::<Utf8Encoding>(case, &w)
    });
    let k = Knobs {
        inc: 20,
        validator: 20,
        depth: 2,
        strings: (1, 4),
        ..k
    };
    ctx.phase("trees", opts(ctx, 15_000, 12.0), |case| {
        let w = keyword_world(&mut case.rng, &k);
        run_any_encoding(case, &w)
    });
    // separators everywhere
    ctx.phase("separators", opts(ctx, 30_000, 12.0), |case| {
        let rng = &mut case.rng;
        let n = rng.range(1, 14);
        let word: String = loop {
            let k = rng.range(1, 5);
            let w: String = (0..k).map(|_| rng.pick_char("ab1-_é ")).collect();
            if w.chars().count() <= n && w.trim().chars().any(|c| c != '-' && c != '_') {
                break w;
            }
        };
        let mut content = String::new();
        for _ in 0..rng.range(1, 5) {
            match rng.below(3) {
                0 => {
                    for c in word.trim().chars() {
                        if rng.chance(1, 4) {
                            content.push(rng.pick_char("-_"));
                        }
                        if (c == '-' || c == '_') && rng.chance(1, 2) {
                            continue;
                        }
                        content.push(if rng.chance(1, 6) { c.to_ascii_uppercase() } else { c });
                    }
                }
                1 => {
                    for _ in 0..rng.range(0, 5) {
                        content.push(rng.pick_char("-_ ab1é."));
                    }
                }
                _ => content.push_str("789"),
            }
        }
        content.push_str("789");
        let node = match rng.below(3) {
            0 => lit("789"),
            1 => rep(cls(vec![Item::Range('7', '9')]), 1, None),
            _ => Node::Cat(vec![rep(cls(vec![Item::Ch('-'), Item::Ch('_')]), 0, Some(1)), lit("78")]),
        };
        let mut rx = build(&node, rng, false);
        if rng.chance(1, 2) {
            rx.pattern = guard_a(&rx.pattern);
        }
        let rule = MRule {
            rx,
            node,
            act: Act::Redact("#".into()),
            scope: MScope::all(),
            kw: Some(MKw {
                n,
                inc: vec![],
                exc: vec![word],
            }),
            validator: None,
        };
        let w = World {
            rules: vec![rule],
            feats: Features::default(),
            val: Val::Str(content),
            blocked: vec![],
        };
        let w = maybe_pad(&mut case.rng, w);
        run_world::<Utf8Encoding>(case, &w)
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, exc: 100, ..Knobs::default() }, 800, 10.0);
}

// ---------------------------------------------------------------- P09 keywords in paths

const PATH_KEYS: &[&str] = &[
    "awsAccess", "AWS_ACCESS", "aws-access", "aws access", "aws/access", "aws.access", "awsaccess", "AWSACCESS", "aws",
    "access", "Access", "key", "KEY", "Key", "apiKey", "ApiKey", "APIKey", "api_key", "apiKEY", "userId", "id", "ID",
    "user.id", "idCard", "x-id-y", "x", "", "tokenX", "secret_", "_secret", "a1", "A1b", "kéy", "my key", "message", "0",
    "awsAccessKeyId", "aws__access", "aws--access", "user_name", "userName", "ssnX", "ssN",
];
const PATH_WORDS: &[&str] = &[
    "aws access", "aws_access", "awsAccess", "aws", "access", "key", "api key", "apiKey", "API_KEY", "id", "user id",
    "secret", "a1", "x", "user_name", "userName", "my key", "ssn", "0", "token", "aws-access key", "AwsAccess", "Id",
];

pub fn p09(ctx: &Ctx) {
    ctx.phase("paths", opts(ctx, 40_000, 20.0), |case| {
        let rng = &mut case.rng;
        let node = match rng.below(3) {
            0 => rep(Node::Perl('d'), 2, None),
            1 => rep(Node::Perl('w'), 2, Some(3)),
            _ => lit("secret"),
        };
        let mut contents: Vec<String> = (0..rng.range(1, 4))
            .map(|_| {
                let mut s = String::new();
                for _ in 0..rng.range(1, 4) {
                    s.push_str(rng.word(&["12", "secret", " ", "key ", "aws access ", "id: ", "ab", ".", "345"]));
                }
                s
            })
            .collect();
        let val = gen_tree(rng, &mut contents, 4, PATH_KEYS);
        let nr = rng.range(1, 3);
        let rules = (0..nr)
            .map(|_| {
                let n = rng.range(14, 50);
                let inc: Vec<String> = (0..rng.range(1, 3)).map(|_| rng.word(PATH_WORDS).to_string()).collect();
                MRule {
                    rx: build(&node, rng, false),
                    node: node.clone(),
                    act: if rng.chance(1, 2) { Act::Redact("[R]".into()) } else { Act::None },
                    scope: if rng.chance(1, 6) {
                        MScope::Exclude(vec![gen_path(rng, &val, PATH_KEYS)])
                    } else {
                        MScope::all()
                    },
                    kw: if rng.chance(5, 6) {
                        Some(MKw {
                            n,
                            inc,
                            exc: if rng.chance(1, 6) { vec!["aws".into(), "key".into()] } else { vec![] },
                        })
                    } else {
                        None
                    },
                    validator: None,
                }
            })
            .collect();
        let w = World {
            rules,
            feats: Features {
                path_keywords: rng.chance(6, 7),
                implicit_wildcards: rng.chance(1, 4),
                multipass: rng.chance(1, 2),
            },
            val,
            blocked: vec![],
        };
        // what the path decided
        if w.feats.path_keywords {
            for (p, _) in w.val.strings() {
                for r in &w.rules {
                    if let Some(k) = &r.kw {
                        if let Ok(b) = model::path_has_keyword(&p, &k.inc) {
                            case.tag(if b { "path has keyword" } else { "path has no keyword" });
                        }
                    }
                }
            }
        }
        run_world::<Utf8Encoding>(case, &w)
    });
    // one field, one keyword: all combinations, as one field, split over two, with indices
    let nk = PATH_KEYS.len() as u64;
    let nw = PATH_WORDS.len() as u64;
    ctx.phase(
        "pairs",
        PhaseOpts {
            cases: nk * nw,
            threads: 8,
            max_s: 60.0,
        },
        |case| {
            let key = PATH_KEYS[(case.n / nw) as usize];
            let word = PATH_WORDS[(case.n % nw) as usize];
            let mut held = 0;
            for (shape, second) in [(0, ""), (1, "key"), (1, "Access"), (1, "id"), (2, ""), (3, "access"), (4, "aws"), (4, "apiKey")] {
                let leaf = || Val::Str("12 secret".into());
                let map = |k: &str, v: Val| Val::Map(vec![(k.to_string(), v)]);
                let val = match shape {
                    0 => map(key, leaf()),
                    1 => map(key, map(second, leaf())),
                    2 => Val::List(vec![map(key, leaf())]),
                    3 => map(key, Val::List(vec![leaf(), map(second, leaf())])),
                    _ => map(second, map(key, leaf())),
                };
                let node = rep(Node::Perl('d'), 2, None);
                let w = World {
                    rules: vec![MRule {
                        rx: build(&node, &mut case.rng, false),
                        node,
                        act: Act::None,
                        scope: MScope::all(),
                        kw: Some(MKw {
                            n: 30,
                            inc: vec![word.to_string()],
                            exc: vec![],
                        }),
                        validator: None,
                    }],
                    feats: Features {
                        path_keywords: true,
                        ..Features::default()
                    },
                    val,
                    blocked: vec![],
                };
                match run_world::<Utf8Encoding>(case, &w) {
                    Outcome::Held(..) => held += 1,
                    Outcome::Abstain(_) => case.tag("pair not judged"),
                    v => return v,
                }
            }
            Outcome::Held(case.n, held > 0)
        },
    );
    // random spellings of keywords and fields
    ctx.phase("spellings", opts(ctx, 40_000, 12.0), |case| {
        let rng = &mut case.rng;
        let alphabet = rng.word(&["abBC1-_. /", "abB-_.", "aB1é-", "abcABC", "ab "]);
        let word: String = loop {
            let w: String = (0..rng.range(1, 7)).map(|_| rng.pick_char(alphabet)).collect();
            if !w.trim().is_empty() {
                break w;
            }
        };
        // another spelling of the keyword, with up to two changes, over one or more fields
        let mut cs: Vec<char> = word.trim().chars().collect();
        for c in cs.iter_mut() {
            match rng.below(6) {
                0 if "-_. /".contains(*c) => *c = rng.pick_char("-_. /"),
                1 if c.is_ascii_lowercase() => *c = c.to_ascii_uppercase(),
                2 if c.is_ascii_uppercase() => *c = c.to_ascii_lowercase(),
                _ => {}
            }
        }
        for _ in 0..rng.below(3) {
            let i = rng.below(cs.len() + 1);
            match rng.below(3) {
                0 if cs.len() > 1 => {
                    cs.remove(i.min(cs.len() - 1));
                }
                _ => cs.insert(i, rng.pick_char("xX1-_. é")),
            }
        }
        if rng.chance(1, 2) {
            for _ in 0..rng.range(1, 3) {
                cs.insert(0, rng.pick_char("xX-_."));
            }
        }
        let split = if rng.chance(1, 2) { rng.below(cs.len() + 1) } else { 0 };
        let (mut a, mut b): (String, String) = (cs[..split].iter().collect(), cs[split..].iter().collect());
        if rng.chance(1, 25) {
            // a long field
            let long = rng.word(&["q", "Q", "qZ", "q-", "q_Zz", "é", "q1"]).repeat(rng.range(20, 400));
            match rng.below(3) {
                0 => a = format!("{long}{a}"),
                1 => b = format!("{long}{}{b}", rng.word(&["", "-", "A"])),
                _ => b = format!("{b}{}{long}", rng.word(&["", "-", "A"])),
            }
        }
        let mut val = Val::Map(vec![(b.clone(), Val::Str("12".into()))]);
        let index = rng.below(4);
        if index == 0 {
            val = Val::List(vec![val]);
        }
        if split > 0 {
            val = Val::Map(vec![(a.clone(), val)]);
        }
        if index == 1 {
            val = Val::List(vec![Val::Str("no".into()), val]);
        }
        for (p, _) in val.strings() {
            if let Ok(want) = model::sanitize_path(&p) {
                let got = p.sanitize();
                if got != want {
                    return Outcome::Violated("standard form".into(), format!("the standard form of the path {p:?} is {got:?}, expected {want:?}"));
                }
            }
        }
        let node = rep(Node::Perl('d'), 2, None);
        let w = World {
            rules: vec![MRule {
                rx: build(&node, rng, false),
                node,
                act: Act::None,
                scope: MScope::all(),
                kw: Some(MKw {
                    n: 30,
                    inc: vec![word],
                    exc: vec![],
                }),
                validator: None,
            }],
            feats: Features {
                path_keywords: true,
                ..Features::default()
            },
            val,
            blocked: vec![],
        };
        for (p, _) in w.val.strings() {
            if let Ok(b) = model::path_has_keyword(&p, &w.rules[0].kw.as_ref().unwrap().inc) {
                case.tag(if b { "spelled: path has keyword" } else { "spelled: path has no keyword" });
            }
        }
        run_world::<Utf8Encoding>(case, &w)
    });
    let k = Knobs {
        rules: (1, 4),
        inc: 80,
        exc: 20,
        validator: 10,
        path_keywords: 85,
        depth: 3,
        strings: (1, 5),
        scope: 20,
        implicit: 20,
        no_multipass: 50,
        ..Knobs::default()
    };
    ctx.phase("random", opts(ctx, 20_000, 12.0), |case| {
        let w = keyword_world(&mut case.rng, &k);
        run_world::<Utf8Encoding>(case, &w)
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, inc: 100, path_keywords: 90, keys: PATH_KEYS, ..Knobs::default() }, 800, 10.0);
}

// ---------------------------------------------------------------- P10 scopes

pub fn p10(ctx: &Ctx) {
    // rules that match everything, so that the scope alone decides
    ctx.phase("scopes", opts(ctx, 40_000, 20.0), |case| {
        let rng = &mut case.rng;
        let keys: &[&str] = &["a", "b", "c"];
        let mut contents: Vec<String> = (0..6).map(|i| format!("v{i}{i}")).collect();
        let val = gen_tree(rng, &mut contents, 5, keys);
        let nr = if rng.chance(1, 40) { rng.range(40, 140) } else { rng.range(1, 5) };
        let many_paths = rng.chance(1, 25);
        let rules: Vec<MRule> = (0..nr)
            .map(|_| {
                let node = rep(Node::Perl('w'), 1, None);
                let paths = |rng: &mut Rng, lo: usize, hi: usize| {
                    (0..if many_paths { rng.range(20, 70) } else { rng.range(lo, hi) })
                        .map(|_| gen_path(rng, &val, keys))
                        .collect::<Vec<_>>()
                };
                MRule {
                    rx: build(&node, rng, false),
                    node,
                    act: Act::None,
                    scope: match rng.below(4) {
                        0 => MScope::Exclude(paths(rng, 0, 4)),
                        1 => MScope::Include(paths(rng, 0, 4), vec![]),
                        2 => MScope::Include(paths(rng, 1, 4), paths(rng, 1, 3)),
                        _ => MScope::Include(vec![Path::root()], paths(rng, 1, 2)),
                    },
                    kw: None,
                    validator: None,
                }
            })
            .collect();
        let w = World {
            rules,
            feats: Features {
                path_keywords: false,
                implicit_wildcards: rng.chance(1, 2),
                multipass: false,
            },
            val,
            blocked: vec![],
        };
        // every rule alone, so that no overlap hides what the scope did
        let mut held = 0u64;
        for r in &w.rules {
            let one = World {
                rules: vec![r.clone()],
                feats: w.feats,
                val: w.val.clone(),
                blocked: vec![],
            };
            for (p, _) in one.val.strings() {
                let (i, e) = model::in_scope(&r.scope, &p, w.feats.implicit_wildcards);
                case.tag(match (i, e) {
                    (true, false) => "string in scope",
                    (true, true) => "string included and excluded",
                    (false, _) => "string out of scope",
                });
            }
            match run_world::<Utf8Encoding>(case, &one) {
                Outcome::Held(_, nt) => held += nt as u64,
                v => return v,
            }
        }
        // and all together, as observed by rules that only log
        let logs: Vec<_> = w.rules.iter().map(|_| Arc::new(std::sync::Mutex::new(vec![]))).collect();
        let cfg: Vec<Arc<dyn RuleConfig>> = w
            .rules
            .iter()
            .zip(&logs)
            .map(|(r, l)| {
                let mut c = ScriptCfg::ranges(Act::None, vec![]);
                c.scope = r.scope.clone();
                c.log = Some(l.clone());
                Arc::new(c) as Arc<dyn RuleConfig>
            })
            .collect();
        let s = build_from(&cfg, w.feats).unwrap();
        if let Err((a, b)) = observe::<Utf8Encoding>(&s, &w.val, &[]) {
            return Outcome::Violated(a, b);
        }
        for (i, r) in w.rules.iter().enumerate() {
            let mut want: Vec<(String, bool)> = w
                .val
                .strings()
                .iter()
                .filter_map(|(p, _)| {
                    let (inc, exc) = model::in_scope(&r.scope, p, w.feats.implicit_wildcards);
                    inc.then(|| (format!("{:?}", p.segments), exc))
                })
                .collect();
            let mut got: Vec<(String, bool)> = logs[i]
                .lock()
                .unwrap()
                .iter()
                .map(|c: &crate::plugin::Call| (c.path.clone(), c.excluded))
                .collect();
            want.sort();
            got.sort();
            got.dedup();
            if want != got {
                return Outcome::Violated(
                    "scope calls".into(),
                    format!("rule {i} should see (path, excluded) {want:?}\nbut saw {got:?}\n{}", w.describe()),
                );
            }
        }
        Outcome::Held(hash_str(&w.describe()), held > 0)
    });
    // all short scope paths against all short event paths
    let segs: Vec<PathSegment<'static>> = vec![field("a"), field("b"), PathSegment::Index(0), PathSegment::Index(1)];
    let mut paths: Vec<Vec<PathSegment<'static>>> = vec![vec![]];
    for len in 1..=3usize {
        for mut code in 0..segs.len().pow(len as u32) {
            let mut p = vec![];
            for _ in 0..len {
                p.push(segs[code % segs.len()].clone());
                code /= segs.len();
            }
            paths.push(p);
        }
    }
    let n = paths.len() as u64;
    ctx.phase(
        "exhaustive",
        PhaseOpts {
            cases: n,
            threads: 8,
            max_s: 60.0,
        },
        |case| {
            // an event with a string at this path
            let target = &paths[case.n as usize];
            let mut val = Val::Str("xx".into());
            for s in target.iter().rev() {
                val = match s {
                    PathSegment::Field(f) => Val::Map(vec![(f.to_string(), val)]),
                    PathSegment::Index(i) => {
                        let mut l = vec![Val::List(vec![]); *i];
                        l.push(val);
                        Val::List(l)
                    }
                };
            }
            let node = lit("xx");
            let rx = build(&node, &mut case.rng, false);
            // all scopes at once: one rule per scope path, matches of different rules are kept
            // apart by scanning with every other rule blocked is slow, so use logging rules
            for implicit in [false, true] {
                for kind in 0..3 {
                    let scopes: Vec<MScope> = paths
                        .iter()
                        .map(|p| {
                            let p: P = Path::from(p.clone());
                            match kind {
                                0 => MScope::Include(vec![p], vec![]),
                                1 => MScope::Exclude(vec![p]),
                                _ => MScope::Include(vec![Path::root()], vec![p]),
                            }
                        })
                        .collect();
                    let log = Arc::new(std::sync::Mutex::new(vec![]));
                    let cfg: Vec<Arc<dyn RuleConfig>> = scopes
                        .iter()
                        .map(|s| {
                            let mut c = ScriptCfg::ranges(Act::None, vec![]);
                            c.scope = s.clone();
                            c.log = Some(log.clone());
                            Arc::new(c) as Arc<dyn RuleConfig>
                        })
                        .collect();
                    let s = build_from(
                        &cfg,
                        Features {
                            implicit_wildcards: implicit,
                            ..Features::default()
                        },
                    )
                    .unwrap();
                    if let Err((a, b)) = observe::<Utf8Encoding>(&s, &val, &[]) {
                        return Outcome::Violated(a, b);
                    }
                    let calls = log.lock().unwrap();
                    for (i, sc) in scopes.iter().enumerate() {
                        let (inc, exc) = model::in_scope(sc, &Path::from(target.clone()), implicit);
                        let got: Vec<bool> = calls
                            .iter()
                            .filter(|c: &&crate::plugin::Call| c.rule == i)
                            .map(|c| c.excluded)
                            .collect();
                        case.tag("scope path x event path pairs");
                        let ok = if inc { !got.is_empty() && got.iter().all(|g| *g == exc) } else { got.is_empty() };
                        if !ok {
                            return Outcome::Violated(
                                "scope pair".into(),
                                format!("scope {sc:?} (implicit wildcards: {implicit}) and event path {target:?}: expected (scanned {inc}, excluded {exc}), observed exclusion flags of the calls {got:?}"),
                            );
                        }
                    }
                }
            }
            let _ = &rx;
            Outcome::Held(case.n, true)
        },
    );
    let k = Knobs {
        rules: (1, 5),
        scope: 80,
        depth: 4,
        strings: (2, 7),
        implicit: 40,
        no_multipass: 60,
        simple: 80,
        ..Knobs::default()
    };
    ctx.phase("random", opts(ctx, 20_000, 12.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_world::<Utf8Encoding>(case, &w)
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, scope: 85, implicit: 40, ..Knobs::default() }, 800, 10.0);
}

// ---------------------------------------------------------------- P11 multipass

pub fn p11(ctx: &Ctx) {
    let k = Knobs {
        rules: (1, 4),
        scope: 75,
        depth: 3,
        strings: (2, 7),
        implicit: 20,
        no_multipass: 15,
        simple: 90,
        repeat: 45,
        pieces: (1, 5),
        ..Knobs::default()
    };
    ctx.phase("random", opts(ctx, 40_000, 20.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        run_any_encoding(case, &w)
    });
    let k2 = Knobs {
        exc: 30,
        validator: 20,
        blocked: 15,
        inc: 10,
        ..k.clone()
    };
    ctx.phase("combined", opts(ctx, 20_000, 12.0), |case| {
        let w = gen_world(&mut case.rng, &k2);
        run_any_encoding(case, &w)
    });
    // small universe: few values over few places
    ctx.phase("small", opts(ctx, 30_000, 15.0), |case| {
        let rng = &mut case.rng;
        let keys: &[&str] = &["a", "b", "c", "d"];
        // now and then a long value
        let long: String = if rng.chance(1, 8) { "12".chars().cycle().take(*rng.pick(&[40, 70, 130, 260, 600, 1100, 5000])).collect() } else { String::new() };
        let mut contents: Vec<String> = (0..rng.range(2, 6))
            .map(|_| {
                let mut s = String::new();
                if !long.is_empty() && rng.chance(2, 3) {
                    s.push_str(&long);
                    s.push(' ');
                }
                for _ in 0..rng.range(1, 4) {
                    s.push_str(rng.word(&["111", "222", "333", "11", " ", "xyz", "XYZ", "é22"]));
                    s.push_str(rng.word(&["", " ", ","]));
                }
                s
            })
            .collect();
        let val = gen_tree(rng, &mut contents, 3, keys);
        let rules: Vec<MRule> = (0..rng.range(1, 3))
            .map(|_| {
                let node = match rng.below(4) {
                    0 => rep(Node::Perl('d'), 3, Some(3)),
                    1 => rep(Node::Perl('d'), 2, None),
                    2 => Node::Cat(vec![Node::SetFlags(vec!['i'], vec![]), lit("xyz")]),
                    _ => rep(Node::Perl('w'), 2, None),
                };
                let mut rx = build(&node, rng, false);
                if rng.chance(1, 2) {
                    rx.pattern = guard_a(&rx.pattern);
                }
                let e = gen_path(rng, &val, keys);
                MRule {
                    rx,
                    node,
                    act: if rng.chance(1, 2) { gen_action(rng) } else { Act::None },
                    scope: match rng.below(3) {
                        0 => MScope::all(),
                        1 => MScope::Exclude(vec![e]),
                        _ => MScope::Include(vec![gen_path(rng, &val, keys), Path::root()], vec![e]),
                    },
                    kw: None,
                    validator: None,
                }
            })
            .collect();
        let w = World {
            rules,
            feats: Features {
                multipass: rng.chance(5, 6),
                ..Features::default()
            },
            val,
            blocked: if rng.chance(1, 6) { vec![0] } else { vec![] },
        };
        run_any_encoding(case, &w)
    });
    super::state::metrics_phase(ctx, 6_000, 6.0);
    let k = Knobs { depth: 2, strings: (1, 4), no_multipass: 10, scope: 85, repeat: 45, ..Knobs::default() };
    scale(ctx, &k, 800, 12.0);
}

// ---------------------------------------------------------------- P13 blocked rules

pub fn p13(ctx: &Ctx) {
    let k = Knobs {
        rules: (2, 6),
        blocked: 40,
        scope: 40,
        inc: 15,
        exc: 15,
        depth: 3,
        strings: (1, 5),
        repeat: 20,
        simple: 75,
        mutate: 60,
        ..Knobs::default()
    };
    ctx.phase("random", opts(ctx, 30_000, 20.0), |case| {
        let w = gen_world(&mut case.rng, &k);
        let r = run_world::<Utf8Encoding>(case, &w);
        let Outcome::Held(h, nt) = r else { return r };
        if w.blocked.is_empty() {
            return Outcome::Held(h, false);
        }
        // the same as a scanner that never had these rules
        let keep: Vec<usize> = (0..w.rules.len()).filter(|i| !w.blocked.contains(i)).collect();
        let rules: Vec<MRule> = keep.iter().map(|i| w.rules[*i].clone()).collect();
        let full = build_scanner(&w.rules, w.feats).unwrap();
        let less = build_scanner(&rules, w.feats).unwrap();
        let a = observe::<Utf8Encoding>(&full, &w.val, &w.blocked);
        let b = observe::<Utf8Encoding>(&less, &w.val, &[]);
        // blocking is for one scan only
        let c = observe::<Utf8Encoding>(&full, &w.val, &[]);
        let fresh = observe::<Utf8Encoding>(&build_scanner(&w.rules, w.feats).unwrap(), &w.val, &[]);
        match (a, b, c, fresh) {
            (Ok(a), Ok(mut b), Ok(c), Ok(f)) => {
                for m in b.matches.iter_mut() {
                    m.rule_index = keep[m.rule_index];
                }
                case.tagn("blocked rules", w.blocked.len() as u64);
                if a.matches != b.matches || a.val != b.val {
                    return Outcome::Violated(
                        "blocked differs from removed".into(),
                        format!("blocked:\n{}{:?}\nremoved:\n{}{:?}\n{}", show_matches(&a.matches), a.val, show_matches(&b.matches), b.val, w.describe()),
                    );
                }
                if c.matches != f.matches || c.val != f.val {
                    return Outcome::Violated("blocking persisted".into(), w.describe());
                }
                let differs = a.matches.len() != c.matches.len();
                if differs {
                    case.tag("blocking changed the result");
                }
                Outcome::Held(h, nt && differs)
            }
            _ => Outcome::Violated("panic".into(), w.describe()),
        }
    });
    // scripted rules: a blocked rule is not even called
    ctx.phase("calls", opts(ctx, 10_000, 8.0), |case| {
        // now and then many rules and a long list
        let n = if case.rng.chance(1, 8) { case.rng.range(7, 80) } else { case.rng.range(1, 6) };
        let log = Arc::new(std::sync::Mutex::new(vec![]));
        let cfg: Vec<Arc<dyn RuleConfig>> = (0..n)
            .map(|_| {
                let mut c = ScriptCfg::ranges(Act::None, vec![(0, 1)]);
                c.log = Some(log.clone());
                Arc::new(c) as Arc<dyn RuleConfig>
            })
            .collect();
        let s = Scanner::builder(&cfg).build().unwrap();
        let mut blocked: Vec<usize> = (0..case.rng.below(n + 2)).map(|_| case.rng.below(n + 3)).collect();
        if case.rng.chance(1, 5) {
            blocked.push(usize::MAX);
        }
        let mut ev = "abc".to_string();
        s.scan(&mut ev, blocked.clone());
        let mut got: Vec<usize> = log.lock().unwrap().iter().map(|c: &crate::plugin::Call| c.rule).collect();
        got.sort();
        let want: Vec<usize> = (0..n).filter(|i| !blocked.contains(i)).collect();
        if got != want {
            return Outcome::Violated("calls".into(), format!("{n} rules, blocked {blocked:?}: rules called {got:?}"));
        }
        Outcome::Held(hash_str(&format!("{n}{blocked:?}")), !blocked.is_empty())
    });
    scale(ctx, &Knobs { depth: 2, strings: (1, 4), no_multipass: 40, blocked: 40, scope: 20, ..Knobs::default() }, 800, 10.0);
}
