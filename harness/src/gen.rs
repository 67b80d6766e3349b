//! Random scanner configurations and events, and the common "run and compare with the reference"
//! step.
use crate::events::{gen_path, gen_tree, Traced, UnitOf, Val, KEYS};
use crate::model::{self, Act, Features, MKw, MRule, MScope, ScanOut};
use crate::rx::{Rx, build, gen_alt, sample, GenOpts, Item, Node, Text};
use crate::util::{guarded, hash_str, take_faults, Case, Outcome, Rng};
use dd_sds::{CreateScannerError, Encoding, RuleConfig, RuleMatch, Scanner, SecondaryValidator};
use serde_json::json;
use std::sync::Arc;

#[derive(Clone)]
pub struct Knobs {
    pub rules: (usize, usize),
    pub rx: GenOpts,
    /// percent of rules with a simple, readable pattern
    pub simple: usize,
    /// percent chances
    pub inc: usize,
    pub exc: usize,
    pub validator: usize,
    pub scope: usize,
    pub mutate: usize,
    pub blocked: usize,
    pub depth: usize,
    pub strings: (usize, usize),
    pub pieces: (usize, usize),
    pub wide: bool,
    /// percent
    pub path_keywords: usize,
    pub implicit: usize,
    pub no_multipass: usize,
    /// percent of pieces that repeat a match from another string
    pub repeat: usize,
    /// percent of worlds in which one dimension is far larger than usual
    pub big: usize,
    pub keys: &'static [&'static str],
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            rules: (1, 4),
            rx: GenOpts {
                depth: 2,
                fancy: false,
                flags: true,
                asserts: true,
            },
            simple: 50,
            inc: 0,
            exc: 0,
            validator: 0,
            scope: 0,
            mutate: 50,
            blocked: 0,
            depth: 0,
            strings: (1, 1),
            pieces: (1, 9),
            wide: false,
            path_keywords: 0,
            implicit: 0,
            no_multipass: 0,
            repeat: 0,
            big: 0,
            keys: KEYS,
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub rules: Vec<MRule>,
    pub feats: Features,
    pub val: Val,
    pub blocked: Vec<usize>,
}
impl World {
    pub fn describe(&self) -> String {
        let mut s = format!("features: {:?}\nblocked: {:?}\n", self.feats, self.blocked);
        for (i, r) in self.rules.iter().enumerate() {
            s.push_str(&format!("rule {i}: {}\n", r.describe()));
        }
        s.push_str(&format!("event: {:?}\n", self.val));
        s
    }
    pub fn sample_json(&self, o: &ScanOut) -> serde_json::Value {
        json!({
            "rules": self.rules.iter().map(|r| r.describe()).collect::<Vec<_>>(),
            "event": format!("{:?}", self.val),
            "matches": o.matches.iter().map(|m| format!("rule {} at {:?} {}..{}", m.rule, m.path, m.start, m.end)).collect::<Vec<_>>(),
            "outputs": o.outputs,
        })
    }
}

pub fn lit(s: &str) -> Node {
    Node::Cat(s.chars().map(Node::Lit).collect())
}
pub fn rep(n: Node, a: u32, b: Option<u32>) -> Node {
    Node::Rep(Box::new(n), a, b, true)
}
pub fn cls(items: Vec<Item>) -> Node {
    Node::Class(items, false)
}
pub fn alnum() -> Vec<Item> {
    vec![
        Item::Range('a', 'z'),
        Item::Range('A', 'Z'),
        Item::Range('0', '9'),
    ]
}
pub fn wb() -> Node {
    Node::Assert('b')
}

/// Readable patterns of the kind users write.
pub fn gen_simple(rng: &mut Rng) -> Node {
    let d = || Node::Perl('d');
    let w = || Node::Perl('w');
    match rng.below(16) {
        0 => lit(rng.word(&["secret", "abc", "bcd", "ab", "cd", "bc", "😏é", "x"])),
        1 => rep(d(), rng.range(1, 4) as u32, None),
        2 => {
            let k = rng.range(1, 4) as u32;
            rep(d(), k, Some(k))
        }
        3 => rep(w(), rng.range(2, 4) as u32, None),
        4 => Node::Cat(vec![wb(), rep(d(), 2, Some(4)), wb()]),
        5 => Node::Cat(vec![rep(d(), 3, Some(3)), Node::Lit('-'), rep(d(), 2, Some(2))]),
        6 => Node::Cat(vec![
            rep(w(), 1, None),
            Node::Lit('@'),
            rep(cls(vec![Item::Range('a', 'z')]), 1, None),
            Node::Lit('.'),
            rep(cls(vec![Item::Range('a', 'z')]), 2, Some(3)),
        ]),
        7 => Node::Cat(vec![lit("sk_"), rep(cls(alnum()), 4, Some(8))]),
        8 => rep(cls(vec![Item::Ch('a'), Item::Ch('b'), Item::Ch('é')]), 2, None),
        9 => Node::Cat(vec![cls(vec![Item::Range('A', 'Z')]), rep(w(), 1, Some(3))]),
        10 => Node::Alt(vec![lit("ab"), lit("abc"), lit("b")]),
        11 => Node::Cat(vec![Node::Lit('a'), rep(Node::Dot, 0, Some(3)), Node::Lit('c')]),
        12 => Node::Rep(Box::new(w()), 2, Some(5), false),
        13 => Node::Cat(vec![Node::Assert('^'), rep(w(), 1, Some(4))]),
        14 => Node::Cat(vec![rep(w(), 1, Some(4)), Node::Assert('$')]),
        _ => Node::Cat(vec![Node::SetFlags(vec!['i'], vec![]), lit(rng.word(&["key", "sos", "é0"]))]),
    }
}

pub fn gen_action(rng: &mut Rng) -> Act {
    match rng.below(8) {
        0 | 1 => Act::Redact(
            rng.word(&["[REDACTED]", "", "*", "é", "😏😏", "secret", "123-45", "ab", "\u{0}"])
                .to_string(),
        ),
        2 => Act::Hash,
        3 => Act::Utf16Hash,
        4 | 5 => Act::First(rng.range(1, 6)),
        _ => Act::Last(rng.range(1, 6)),
    }
}

/// Keyword material. Words are made of letters of the alphabet that the reference knows.
pub const WORDS: &[&str] = &[
    "key", "id", "card", "api key", "user_name", "x-y", "aws access", "ssn", "0", "a", "é", "ké", "#", "co.de",
    "secret", "token", "a1", "_z", "-q", "sos", "awsAccess", "SSN", "tok en", "x",
];

/// White space (not part of the keyword) around it.
pub fn pad(rng: &mut Rng, w: &str) -> String {
    let a = rng.word(&[" ", "\t", "\n", "\r\n", "  ", "\u{a0}", "\u{2003}", "\u{c}", "\u{85}"]);
    let b = rng.word(&["", " ", "\t", "\n", "\u{3000}", "\u{b}"]);
    match rng.below(3) {
        0 => format!("{a}{w}"),
        1 => format!("{w}{a}"),
        _ => format!("{a}{w}{b}"),
    }
}
pub fn gen_keywords(rng: &mut Rng, n: usize) -> Vec<String> {
    let k = rng.range(1, 3);
    let mut v = vec![];
    for _ in 0..k {
        let mut w = rng.word(WORDS).to_string();
        if rng.chance(1, 8) {
            w = pad(rng, &w);
        }
        if w.chars().count() <= n {
            v.push(w);
        }
    }
    if v.is_empty() {
        v.push("a".into());
    }
    v
}

/// Equivalent patterns (generated content has none of the characters that are added) for which the
/// regex engine cannot use its literal optimisations.
/// The same pattern, with one more alternative in every alternation (characters that never occur):
/// no alternation has a prefix or suffix in common then.
pub fn guard_node(n: &Node) -> Node {
    let g = |x: &Node| Box::new(guard_node(x));
    match n {
        Node::Cat(v) => Node::Cat(v.iter().map(guard_node).collect()),
        Node::Alt(v) => {
            let mut v: Vec<Node> = v.iter().map(guard_node).collect();
            v.push(Node::Class(vec![Item::Range('\u{F0000}', '\u{FFFFD}')], false));
            Node::Alt(v)
        }
        Node::Rep(x, a, b, c) => Node::Rep(g(x), *a, *b, *c),
        Node::Group(k, a, b, x) => Node::Group(*k, a.clone(), b.clone(), g(x)),
        n => n.clone(),
    }
}
/// Builds a pattern; if `guarded`, one to which no literal or prefix optimisation applies.
pub fn build_rx(node: &Node, rng: &mut Rng, fancy: bool, guarded: bool) -> Rx {
    if !guarded {
        return build(node, rng, fancy);
    }
    let mut rx = build(&guard_node(node), rng, fancy);
    rx.pattern = guard_a(&rx.pattern);
    rx
}
pub fn guard_a(p: &str) -> String {
    format!("{p}|[\\x{{F0000}}-\\x{{FFFFD}}]")
}
/// The same on the left: the pattern keeps its own end.
pub fn guard_c(p: &str) -> String {
    format!("[\\x{{F0000}}-\\x{{FFFFD}}]|{p}")
}
pub fn guard_b(p: &str) -> String {
    format!("[\\x{{F0000}}-\\x{{FFFFD}}]|(?:{p})")
}

pub fn gen_rule(rng: &mut Rng, k: &Knobs) -> MRule {
    loop {
        let (node, fancy) = if rng.below(100) < k.simple {
            (gen_simple(rng), false)
        } else {
            (gen_alt(rng, k.rx), k.rx.fancy)
        };
        let guarded = rng.chance(1, 3);
        let rx = build_rx(&node, rng, fancy, guarded);
        // patterns that match the empty string are rejected
        match rx.find(&Text::new(""), 0) {
            Ok(None) => {}
            _ => continue,
        }
        let act = if rng.below(100) < k.mutate {
            gen_action(rng)
        } else {
            Act::None
        };
        let inc = rng.below(100) < k.inc;
        let exc = rng.below(100) < k.exc;
        let kw = if inc || exc {
            let n = *rng.pick(&[1, 2, 3, 5, 8, 10, 20, 30, 50]);
            Some(MKw {
                n,
                inc: if inc { gen_keywords(rng, n) } else { vec![] },
                exc: if exc {
                    gen_keywords(rng, n)
                        .into_iter()
                        .filter(|x| x.trim().chars().any(|c| c != '-' && c != '_'))
                        .collect()
                } else {
                    vec![]
                },
            })
        } else {
            None
        };
        let validator = if rng.below(100) < k.validator {
            Some(
                rng.pick(&[
                    SecondaryValidator::LuhnChecksum,
                    SecondaryValidator::LuhnChecksum,
                    SecondaryValidator::NhsCheckDigit,
                    SecondaryValidator::NirChecksum,
                    SecondaryValidator::GithubTokenChecksum,
                ])
                .clone(),
            )
        } else {
            None
        };
        return MRule {
            node,
            rx,
            act,
            scope: MScope::all(),
            kw,
            validator,
        };
    }
}

pub fn noise(rng: &mut Rng, wide: bool, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(if wide {
            rng.pick_char(crate::rx::ALPHABET)
        } else {
            rng.pick_char("abcxAB012 _-.,@é€😏")
        });
    }
    s
}

pub fn gen_content(rng: &mut Rng, rules: &[MRule], k: &Knobs, hot: &mut Vec<String>) -> String {
    let mut s = String::new();
    let pieces = rng.range(k.pieces.0, k.pieces.1);
    for _ in 0..pieces {
        let r = rng.pick(rules).clone();
        if !hot.is_empty() && rng.below(100) < k.repeat {
            s.push_str(rng.pick(hot).clone().as_str());
            continue;
        }
        match rng.below(12) {
            0..=4 => {
                let mut t = String::new();
                sample(&r.node, rng, &mut t);
                if rng.chance(1, 6) && !t.is_empty() {
                    let mut cs: Vec<char> = t.chars().collect();
                    let i = rng.below(cs.len());
                    match rng.below(3) {
                        0 => {
                            cs.remove(i);
                        }
                        1 => cs[i] = rng.pick_char("abX0_- é"),
                        _ => cs.insert(i, rng.pick_char("abX0_- é")),
                    }
                    t = cs.into_iter().collect();
                }
                if hot.len() < 4 && !t.is_empty() {
                    hot.push(t.clone());
                }
                s.push_str(&t);
            }
            5..=7 => {
                let kw = r.kw.as_ref().map(|x| {
                    let mut v = x.inc.clone();
                    v.extend(x.exc.clone());
                    v
                });
                match kw {
                    Some(v) if !v.is_empty() => {
                        let mut w = rng.pick(&v).trim().to_string();
                        match rng.below(8) {
                            0 => w = w.to_uppercase().chars().take(w.chars().count()).collect(),
                            1 => {
                                // separators inside, as in "user-name" for "username"
                                let i = rng.below(w.chars().count() + 1);
                                let mut cs: Vec<char> = w.chars().collect();
                                cs.insert(i, *rng.pick(&['-', '_']));
                                w = cs.into_iter().collect();
                            }
                            2 => w.push(rng.pick_char("ab_-0é")),
                            3 => w.insert(0, rng.pick_char("ab_-0é")),
                            4 => w = w.chars().filter(|c| *c != '-' && *c != '_').collect(),
                            _ => {}
                        }
                        if w.chars().any(|c| !c.is_ascii() && !crate::rx::ALPHABET.contains(c)) {
                            w = "key".into();
                        }
                        s.push_str(rng.word(&["", " ", ",", "-", "_", "\n", "é"]));
                        s.push_str(&w);
                        s.push_str(rng.word(&["", " ", ":", "-", "_", "=", "é", " - "]));
                        if let (true, Some(kk)) = (rng.chance(1, 3), r.kw.as_ref()) {
                            // put the next piece near the edge of the window
                            let used = w.chars().count();
                            let gap = (kk.n + rng.below(3)).saturating_sub(used + 1);
                            s.push_str(&noise(rng, false, gap.min(60)));
                        }
                    }
                    _ => s.push(' '),
                }
            }
            8 | 9 => {
                let n = rng.range(1, 4);
                s.push_str(&noise(rng, k.wide, n));
            }
            _ => s.push_str(rng.word(&[" ", " ", "\n", "", "é", "😏", "-", "_", "a", "0"])),
        }
        if s.chars().count() > 150 {
            break;
        }
    }
    s
}

/// A world in which one dimension (strings per event, length of a string, of a field name, of a
/// replacement, depth, number of rules, of keywords, of matches) is far larger than usual.
fn gen_big_world(rng: &mut Rng, k: &Knobs) -> World {
    let dim = rng.below(7);
    let k = Knobs {
        big: 0,
        simple: 100,
        rules: if dim == 3 { k.rules } else { (1, k.rules.1.min(3)) },
        ..k.clone()
    };
    let mut w = gen_world(rng, &k);
    let small = Knobs { pieces: (1, 3), ..k.clone() };
    let mut hot = vec![];
    match dim {
        // many strings
        0 => {
            let n = rng.range(40, 400);
            let mut c: Vec<String> = vec![];
            for i in 0..n {
                if !c.is_empty() && rng.below(100) < k.repeat.max(25) {
                    let x = rng.pick(&c).clone();
                    c.push(x);
                    continue;
                }
                let mut x = gen_content(rng, &w.rules, &small, &mut hot);
                if rng.chance(1, 2) {
                    // nearly all different
                    x.push_str(rng.word(&["", " ", "é"]));
                    x.push_str(&format!("{}", 100 + i));
                }
                c.push(x);
            }
            w.val = match rng.below(4) {
                0 => Val::List(c.into_iter().map(Val::Str).collect()),
                1 => Val::Map(c.into_iter().enumerate().map(|(i, x)| (format!("k{i}"), Val::Str(x))).collect()),
                _ => {
                    let parts = rng.range(2, 5);
                    let mut v: Vec<Vec<Val>> = vec![vec![]; parts];
                    for x in c {
                        let i = rng.below(parts);
                        v[i].push(Val::Str(x));
                    }
                    Val::Map(v.into_iter().enumerate().map(|(i, l)| (format!("p{i}"), Val::List(l))).collect())
                }
            };
        }
        // a long string
        1 | 2 => {
            let mut x = String::new();
            let many = rng.chance(1, 2);
            let n = if many { rng.range(40, 250) } else { rng.range(3, 8) };
            for _ in 0..n {
                x.push_str(&gen_content(rng, &w.rules, &small, &mut hot));
                if !many {
                    let len = *rng.pick(&[130, 260, 600, 5_000, 17_000, 33_000, 66_000]);
                    let u = rng.word(&[" ", ".", "é", "😏", " .", ",é"]);
                    for _ in 0..len / u.len() {
                        x.push_str(u);
                    }
                    if x.len() > 140_000 {
                        x.push_str(&gen_content(rng, &w.rules, &small, &mut hot));
                        break;
                    }
                }
            }
            w.val = if k.depth == 0 { Val::Str(x) } else { Val::List(vec![w.val, Val::Str(x)]) };
        }
        // many rules, of few patterns
        3 => {
            let n = rng.range(60, 300);
            while w.rules.len() < n {
                let mut r = w.rules[w.rules.len() % w.rules.len().min(7)].clone();
                r.act = if rng.below(100) < k.mutate { gen_action(rng) } else { Act::None };
                w.rules.push(r);
            }
            for i in 0..n {
                if rng.below(100) < k.blocked && !w.blocked.contains(&i) {
                    w.blocked.push(i);
                }
            }
        }
        // deep, or with long field names
        4 => {
            let n = rng.range(5, 90);
            let long = rng.chance(1, 3);
            for i in 0..n {
                w.val = if rng.chance(1, 4) {
                    Val::List(vec![Val::Str(String::new()), w.val])
                } else {
                    let mut f = rng.word(k.keys).to_string();
                    if long && i == 0 {
                        let len = *rng.pick(&[130, 300, 5_000, 40_000, 70_000]);
                        while f.len() < len {
                            f.push_str(rng.word(&["a", "b_", "x-", "Z"]));
                        }
                    }
                    Val::Map(vec![(f, w.val)])
                };
            }
        }
        // long replacements
        5 => {
            for r in w.rules.iter_mut() {
                if r.act.mutates() {
                    let len = *rng.pick(&[100, 300, 5_000, 33_000, 70_000]);
                    r.act = match rng.below(3) {
                        0 => Act::Redact(rng.word(&["x", "é", "ab😏"]).repeat(len / 4)),
                        1 => Act::First(len),
                        _ => Act::Last(len),
                    };
                }
            }
        }
        // many keywords
        _ => {
            for r in w.rules.iter_mut() {
                let Some(kw) = r.kw.as_mut() else { continue };
                for l in [&mut kw.inc, &mut kw.exc] {
                    if l.is_empty() {
                        continue;
                    }
                    let n = rng.range(20, 50);
                    let mut v: Vec<String> = vec![];
                    let mut i = 0;
                    while v.len() + l.len() < n {
                        let f = format!("{}{i}", rng.word(&["q", "w", "z_", ""]));
                        i += 1;
                        if f.chars().count() <= kw.n || i > 200 {
                            v.push(if f.chars().count() <= kw.n { f } else { "q".into() });
                        }
                    }
                    // those that occur in the content last
                    v.append(l);
                    *l = v;
                }
            }
        }
    }
    gen_scopes(rng, &mut w.rules, &w.val, &k);
    w
}

fn gen_scopes(rng: &mut Rng, rules: &mut [MRule], val: &Val, k: &Knobs) {
    for r in rules.iter_mut() {
        if rng.below(100) < k.scope {
            let paths = |rng: &mut Rng, lo: usize, hi: usize| {
                (0..rng.range(lo, hi))
                    .map(|_| gen_path(rng, val, k.keys))
                    .collect::<Vec<_>>()
            };
            r.scope = match rng.below(3) {
                0 => MScope::Exclude(paths(rng, 0, 3)),
                1 => MScope::Include(paths(rng, 0, 3), vec![]),
                _ => MScope::Include(paths(rng, 1, 3), paths(rng, 1, 2)),
            };
        }
    }
}

pub fn gen_world(rng: &mut Rng, k: &Knobs) -> World {
    if k.big > 0 && rng.below(100) < k.big {
        return gen_big_world(rng, k);
    }
    // sometimes far more rules than usual
    let many = k.rules.1 > 2 && rng.chance(1, 150);
    let n = if many { rng.range(34, 140) } else { rng.range(k.rules.0, k.rules.1) };
    let mut rules: Vec<MRule> = vec![];
    for _ in 0..n {
        // sometimes the same pattern again, with another configuration
        if !rules.is_empty() && (rng.chance(1, 6) || (many && rules.len() > 6)) {
            let mut r = gen_rule(rng, k);
            let o = rng.pick(&rules).clone();
            r.node = o.node;
            r.rx = o.rx;
            rules.push(r);
        } else {
            rules.push(gen_rule(rng, k));
        }
    }
    let ns = rng.range(k.strings.0, k.strings.1);
    let mut hot = vec![];
    let mut contents: Vec<String> = (0..ns).map(|_| gen_content(rng, &rules, k, &mut hot)).collect();
    let val = if k.depth == 0 {
        Val::Str(contents.pop().unwrap_or_default())
    } else {
        gen_tree(rng, &mut contents, k.depth, k.keys)
    };
    gen_scopes(rng, &mut rules, &val, k);
    let mut blocked = vec![];
    for i in 0..rules.len() {
        if rng.below(100) < k.blocked {
            blocked.push(i);
        }
    }
    if k.blocked > 0 && rng.chance(1, 6) {
        blocked.push(rules.len() + rng.below(3));
    }
    if blocked.len() > 1 && rng.chance(1, 2) {
        blocked.reverse();
    }
    World {
        rules,
        feats: Features {
            path_keywords: rng.below(100) < k.path_keywords,
            implicit_wildcards: rng.below(100) < k.implicit,
            multipass: rng.below(100) >= k.no_multipass,
        },
        val,
        blocked,
    }
}

pub fn build_scanner(rules: &[MRule], f: Features) -> Result<Scanner, CreateScannerError> {
    let cfg: Vec<Arc<dyn RuleConfig>> = rules
        .iter()
        .map(|r| Arc::new(r.to_config()) as Arc<dyn RuleConfig>)
        .collect();
    build_from(&cfg, f)
}
pub fn build_from(cfg: &[Arc<dyn RuleConfig>], f: Features) -> Result<Scanner, CreateScannerError> {
    Scanner::builder(cfg)
        .with_keywords_should_match_event_paths(f.path_keywords)
        .with_implicit_wildcard_indexes_for_scopes(f.implicit_wildcards)
        .with_multipass_v0(f.multipass)
        .build()
}

#[derive(Debug)]
pub struct Observed {
    pub matches: Vec<RuleMatch>,
    pub val: Val,
    pub touched: Vec<bool>,
    pub faults: Vec<String>,
}

/// Runs one scan of a monitored event.
pub fn observe<E: Encoding>(
    s: &Scanner,
    val: &Val,
    blocked: &[usize],
) -> Result<Observed, (String, String)> {
    let mut ev = Traced::<E>::new(val.clone());
    take_faults();
    match guarded(|| s.scan(&mut ev, blocked.to_vec())) {
        Ok(matches) => {
            let mut faults = std::mem::take(&mut ev.faults);
            faults.extend(take_faults());
            Ok(Observed {
                matches,
                touched: ev.visited.iter().map(|v| v.1).collect(),
                val: ev.val,
                faults,
            })
        }
        Err(p) => Err((
            format!("panic:{}", p.loc),
            format!("scan panicked at {}: {}", p.loc, p.msg),
        )),
    }
}

pub fn show_matches(ms: &[RuleMatch]) -> String {
    let mut s = String::new();
    for m in ms {
        s.push_str(&format!(
            "  rule {} path={:?} {:?} {}..{} shift={} value={:?} {:?}\n",
            m.rule_index,
            m.path.segments,
            m.replacement_type,
            m.start_index,
            m.end_index_exclusive,
            m.shift_offset,
            m.match_value,
            m.match_status
        ));
    }
    if s.is_empty() {
        s.push_str("  (none)\n");
    }
    s
}

/// Compares an observation with what the reference expects.
pub fn diff(
    rules: &[MRule],
    val: &Val,
    o: &ScanOut,
    unit: model::Unit,
    obs: &Observed,
) -> Option<(String, String)> {
    let acts: Vec<Act> = rules.iter().map(|r| r.act.clone()).collect();
    diff_acts(&acts, val, o, unit, obs)
}
pub fn diff_acts(
    acts: &[Act],
    val: &Val,
    o: &ScanOut,
    unit: model::Unit,
    obs: &Observed,
) -> Option<(String, String)> {
    let strings = val.strings();
    if let Some(f) = obs.faults.first() {
        return Some(("protocol".into(), format!("event protocol: {f}")));
    }
    let exp = model::expected(acts, &strings, o, unit);
    if exp != obs.matches {
        let key = |m: &RuleMatch| (m.rule_index, m.path.clone());
        let kind = if exp.len() != obs.matches.len()
            || exp.iter().map(key).ne(obs.matches.iter().map(key))
        {
            "matches"
        } else {
            "match fields"
        };
        return Some((
            kind.into(),
            format!(
                "expected matches:\n{}observed matches:\n{}",
                show_matches(&exp),
                show_matches(&obs.matches)
            ),
        ));
    }
    let mut want = val.clone();
    want.set_strings(&o.outputs);
    if want != obs.val {
        return Some((
            "output".into(),
            format!("expected event: {want:?}\nobserved event: {:?}", obs.val),
        ));
    }
    // the flag that tells whether a string may be mutated later (only a hint, but it must be
    // raised for every string that has candidates)
    for (i, t) in o.touched.iter().enumerate() {
        if *t && o.matches.iter().any(|m| m.string == i) && !obs.touched[i] {
            return Some(("might_mutate".into(), format!("string {i} has matches but was announced as not mutating")));
        }
    }
    None
}

/// The regex engine (a dependency) has two defects: its suffix-literal optimisation does not
/// always report the leftmost match, and alternatives with a common prefix are merged even if
/// that changes which one is preferred. A disagreement is attributed to them if it goes away when
/// the patterns are spelled such that the optimisations cannot be used. Some of the generated
/// patterns are spelled that way to begin with, and they are never excused.
pub fn engine_defect<E: Encoding + UnitOf>(w: &World, o: &ScanOut) -> bool {
    let guarded_from_start = |p: &str| p.ends_with("|[\\x{F0000}-\\x{FFFFD}]");
    if w.rules.iter().all(|r| guarded_from_start(&r.rx.pattern)) {
        return false;
    }
    let agrees = |g: &dyn Fn(&MRule) -> String| {
        let mut rules = w.rules.clone();
        for r in rules.iter_mut() {
            if !guarded_from_start(&r.rx.pattern) {
                r.rx.pattern = g(r);
            }
        }
        match build_scanner(&rules, w.feats) {
            Ok(s) => match observe::<E>(&s, &w.val, &w.blocked) {
                Ok(obs) => diff(&rules, &w.val, o, E::UNIT, &obs).is_none(),
                Err(_) => false,
            },
            Err(_) => false,
        }
    };
    (agrees(&|r| guard_a(&r.rx.pattern)) && agrees(&|r| guard_b(&r.rx.pattern)))
        || agrees(&|r| build_rx(&r.rx.node, &mut Rng::new(1), false, true).pattern)
}

/// Builds the scanner, scans, compares.
pub fn run_world<E: Encoding + UnitOf>(case: &mut Case, w: &World) -> Outcome {
    let strings = w.val.strings();
    let o = match model::scan(&w.rules, w.feats, &strings, &w.blocked) {
        Ok(o) => o,
        Err(a) => return Outcome::Abstain(a),
    };
    let scanner = match build_scanner(&w.rules, w.feats) {
        Ok(s) => s,
        Err(CreateScannerError::InvalidRegex(dd_sds::RegexValidationError::TooComplex)) => {
            return Outcome::Abstain("pattern too complex")
        }
        Err(e) => {
            return Outcome::Violated(
                "rejected".into(),
                format!("the scanner was not created: {e:?}\n{}", w.describe()),
            )
        }
    };
    let obs = match observe::<E>(&scanner, &w.val, &w.blocked) {
        Ok(o) => o,
        Err((s, d)) => return Outcome::Violated(s, format!("{d}\n{}", w.describe())),
    };
    tag_world(case, w, &o);
    if case.verbose {
        println!("{}expected: {:#?}\nobserved:\n{}", w.describe(), o, show_matches(&obs.matches));
    }
    if let Some((s, d)) = diff(&w.rules, &w.val, &o, E::UNIT, &obs) {
        if engine_defect::<E>(w, &o) {
            return Outcome::Abstain("regex engine literal optimisation (known finding)");
        }
        return Outcome::Violated(s, format!("{d}\n{}", w.describe()));
    }
    case.sample = Some(w.sample_json(&o));
    Outcome::Held(hash_str(&w.describe()), o.candidates > 0)
}

pub fn tag_world(case: &mut Case, w: &World, o: &ScanOut) {
    case.tagn("matches reported", o.matches.len() as u64);
    case.tagn("matches removed by overlap", o.overlapped as u64);
    case.tagn("strings scanned", o.outputs.len() as u64);
    case.tagn("suppressed by excluded keyword", o.fp_kw.iter().sum());
    case.tagn("suppressed by excluded path", o.fp_multipass.iter().sum());
    if o.matches.is_empty() && o.candidates == 0 {
        case.tag("events without candidates");
    }
    for m in &o.matches {
        case.tagn(
            match w.rules[m.rule].act {
                Act::None => "action none",
                Act::Redact(_) => "action redact",
                Act::Hash => "action hash",
                Act::Utf16Hash => "action utf16 hash",
                Act::First(_) => "action partial first",
                Act::Last(_) => "action partial last",
            },
            1,
        );
    }
}
