//! Reference scanner: the documented behaviour of a scan, written from the specification, without
//! calling into the implementation. It is three-valued: where the documentation leaves the
//! outcome open it abstains.
use crate::rx::{equivs, is_word, Node, Rx, Text};
use dd_sds::{
    MatchAction, MatchStatus, PartialRedactDirection, Path, PathSegment, ProximityKeywordsConfig,
    RegexRuleConfig, ReplacementType, RuleMatch, Scope, SecondaryValidator,
};
use std::collections::HashSet;

pub type Abstain = &'static str;
pub type P = Path<'static>;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    None,
    Redact(String),
    Hash,
    Utf16Hash,
    First(usize),
    Last(usize),
}
impl Act {
    pub fn mutates(&self) -> bool {
        *self != Act::None
    }
    #[allow(deprecated)]
    pub fn to_sds(&self) -> MatchAction {
        match self {
            Act::None => MatchAction::None,
            Act::Redact(s) => MatchAction::Redact {
                replacement: s.clone(),
            },
            Act::Hash => MatchAction::Hash,
            Act::Utf16Hash => MatchAction::Utf16Hash,
            Act::First(n) => MatchAction::PartialRedact {
                direction: PartialRedactDirection::FirstCharacters,
                character_count: *n,
            },
            Act::Last(n) => MatchAction::PartialRedact {
                direction: PartialRedactDirection::LastCharacters,
                character_count: *n,
            },
        }
    }
    pub fn replacement_type(&self) -> ReplacementType {
        match self {
            Act::None => ReplacementType::None,
            Act::Redact(_) => ReplacementType::Placeholder,
            Act::Hash | Act::Utf16Hash => ReplacementType::Hash,
            Act::First(_) => ReplacementType::PartialStart,
            Act::Last(_) => ReplacementType::PartialEnd,
        }
    }
    /// What the matched text becomes.
    pub fn apply(&self, text: &str) -> String {
        match self {
            Act::None => text.to_string(),
            Act::Redact(s) => s.clone(),
            Act::Hash => format!("{:x}", farmhash::fingerprint64(text.as_bytes())),
            Act::Utf16Hash => {
                let b: Vec<u8> = text.encode_utf16().flat_map(|u| [u as u8, (u >> 8) as u8]).collect();
                format!("{:x}", farmhash::fingerprint64(&b))
            }
            Act::First(n) => {
                let mut s = "*".repeat(*n);
                s.extend(text.chars().skip(*n));
                s
            }
            Act::Last(n) => {
                let len = text.chars().count();
                let mut s: String = text.chars().take(len.saturating_sub(*n)).collect();
                s.push_str(&"*".repeat(*n));
                s
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum MScope {
    Include(Vec<P>, Vec<P>),
    Exclude(Vec<P>),
}
impl MScope {
    pub fn all() -> Self {
        MScope::Exclude(vec![])
    }
    pub fn to_sds(&self) -> Scope {
        match self {
            MScope::Include(i, e) => Scope::include_and_exclude(i.clone(), e.clone()),
            MScope::Exclude(e) => Scope::exclude(e.clone()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct MKw {
    pub n: usize,
    pub inc: Vec<String>,
    pub exc: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct MRule {
    pub node: Node,
    pub rx: Rx,
    pub act: Act,
    pub scope: MScope,
    pub kw: Option<MKw>,
    pub validator: Option<SecondaryValidator>,
}
impl MRule {
    pub fn to_config(&self) -> RegexRuleConfig {
        let mut c = RegexRuleConfig::new(&self.rx.pattern)
            .match_action(self.act.to_sds())
            .scope(self.scope.to_sds());
        if let Some(k) = &self.kw {
            c = c.proximity_keywords(ProximityKeywordsConfig {
                look_ahead_character_count: k.n,
                included_keywords: k.inc.clone(),
                excluded_keywords: k.exc.clone(),
            });
        }
        if let Some(v) = &self.validator {
            c = c.validator(v.clone());
        }
        c
    }
    pub fn describe(&self) -> String {
        format!(
            "pattern={:?} action={:?} scope={:?} keywords={:?} validator={:?}",
            self.rx.pattern, self.act, self.scope, self.kw, self.validator
        )
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Features {
    pub path_keywords: bool,
    pub implicit_wildcards: bool,
    pub multipass: bool,
}
impl Default for Features {
    fn default() -> Self {
        Features {
            path_keywords: false,
            implicit_wildcards: false,
            multipass: true,
        }
    }
}

// ---------------------------------------------------------------- scopes

/// Whether `path` is at or below `s`, where indices of the event may optionally be skipped.
pub fn below(path: &[PathSegment], s: &[PathSegment], implicit: bool) -> bool {
    // (segments of s consumed, was the last index skipped)
    let mut states: Vec<(usize, bool)> = vec![(0, false)];
    if s.is_empty() {
        return true;
    }
    for g in path {
        let is_index = matches!(g, PathSegment::Index(_));
        let mut next = vec![];
        for (j, w) in states {
            if s[j] == *g && !(w && is_index) {
                if j + 1 == s.len() {
                    return true;
                }
                next.push((j + 1, false));
            }
            if is_index && implicit {
                next.push((j, true));
            }
        }
        states = next;
    }
    false
}

pub fn in_scope(scope: &MScope, path: &P, implicit: bool) -> (bool, bool) {
    let b = |s: &P| below(&path.segments, &s.segments, implicit);
    match scope {
        MScope::Include(i, e) => (i.iter().any(b), e.iter().any(b)),
        MScope::Exclude(e) => (true, e.iter().any(b)),
    }
}

// ---------------------------------------------------------------- keywords

fn eq_fold(a: char, b: char) -> bool {
    a == b || equivs(a).contains(&b)
}

/// All (start, end) occurrences (char indices) of the keyword that lie within `lo..hi`.
pub fn occurrences(text: &[char], lo: usize, hi: usize, keyword: &[char]) -> Vec<(usize, usize)> {
    let k = keyword.len();
    let mut out = vec![];
    if k == 0 {
        return out;
    }
    let boundary = |p: usize| {
        let a = p > 0 && is_word(text[p - 1]);
        let b = p < text.len() && is_word(text[p]);
        a != b
    };
    for s in lo..hi {
        if s + k > hi {
            break;
        }
        if !text[s..s + k].iter().zip(keyword).all(|(a, b)| eq_fold(*a, *b)) {
            continue;
        }
        if keyword[0].is_ascii_alphanumeric() && !boundary(s) {
            continue;
        }
        if keyword[k - 1].is_ascii_alphanumeric() && !boundary(s + k) {
            continue;
        }
        out.push((s, s + k));
    }
    out
}

fn kw_chars(k: &str, stripped: bool) -> Vec<char> {
    k.trim()
        .chars()
        .filter(|c| !stripped || (*c != '-' && *c != '_'))
        .collect()
}

/// Whether an excluded keyword is in the `n` characters before `start`, ignoring - and _.
pub fn excluded_before(text: &[char], start: usize, n: usize, exc: &[String]) -> bool {
    let kept = |c: &char| *c != '-' && *c != '_';
    let p0 = start.saturating_sub(n);
    let mut t: Vec<char> = text[..p0].iter().rev().find(|c| kept(c)).copied().into_iter().collect();
    let lo = t.len();
    t.extend(text[p0..start].iter().filter(|c| kept(c)));
    let hi = t.len();
    t.extend(text[start..].iter().find(|c| kept(c)));
    exc.iter()
        .any(|k| !occurrences(&t, lo, hi, &kw_chars(k, true)).is_empty())
}

/// Standard form of a keyword or field for matching keywords in paths.
pub fn standardize(s: &str) -> Result<String, Abstain> {
    let cs: Vec<char> = s.chars().collect();
    let link = |c: char| "-_. /".contains(c);
    if let Some(l) = cs.last() {
        if !s.is_ascii() && (link(*l) || l.is_ascii_uppercase()) {
            return Err("non-ASCII field ending in a separator or an uppercase letter");
        }
    }
    let mut out = String::new();
    for (i, &c) in cs.iter().enumerate() {
        if i == 0 || i + 1 == cs.len() || link(cs[i - 1]) {
            out.push(c);
        } else if link(c) {
            out.push('.');
        } else if c.is_ascii_uppercase() && !cs[i - 1].is_ascii_uppercase() {
            out.push('.');
            out.push(c);
        } else {
            out.push(c);
        }
    }
    Ok(out.to_ascii_lowercase())
}

pub fn sanitize_path(path: &P) -> Result<String, Abstain> {
    let mut out = String::new();
    for (i, seg) in path.segments.iter().enumerate() {
        if let PathSegment::Field(f) = seg {
            if i > 0 {
                out.push('.');
            }
            let lower = f.chars().all(|c| c.is_ascii_lowercase());
            let upper = f.chars().all(|c| c.is_ascii_uppercase());
            if lower || upper {
                out.push_str(&f.to_ascii_lowercase());
            } else {
                out.push_str(&standardize(f)?);
            }
        }
    }
    Ok(out)
}

pub fn path_has_keyword(path: &P, inc: &[String]) -> Result<bool, Abstain> {
    let p: Vec<char> = sanitize_path(path)?.chars().collect();
    for k in inc {
        let t = k.trim();
        let std: Vec<char> = standardize(t)?.chars().collect();
        let ends = (t.chars().next().unwrap(), t.chars().last().unwrap());
        // the standard form keeps the first and the last character
        debug_assert!(eq_fold(ends.0, std[0]));
        if !occurrences(&p, 0, p.len(), &std).is_empty() {
            return Ok(true);
        }
    }
    Ok(false)
}

// ---------------------------------------------------------------- matches of one rule

pub struct StringCtx<'a> {
    pub text: &'a Text,
    pub content: &'a str,
}

/// The next match that is not a false positive, at or after `from` (char indices).
fn next_tp(
    rule: &MRule,
    c: &StringCtx,
    mut from: usize,
    check_excluded_kw: bool,
    fp_kw: &mut u64,
) -> Result<Option<(usize, usize)>, Abstain> {
    loop {
        let m = match rule.rx.find(c.text, from) {
            Ok(m) => m,
            Err(_) => return Err("matcher step limit"),
        };
        let Some((s, e)) = m else { return Ok(None) };
        let mut bad = s == e;
        if !bad && check_excluded_kw {
            if let Some(k) = &rule.kw {
                if !k.exc.is_empty() && excluded_before(&c.text.chars, s, k.n, &k.exc) {
                    *fp_kw += 1;
                    bad = true;
                }
            }
        }
        if !bad {
            if let Some(v) = &rule.validator {
                let t = &c.content[c.text.byte[s]..c.text.byte[e]];
                match crate::validators::valid(v, t, { let n = crate::validators::now(); (n - 600, n + 600) }) {
                    Some(ok) => bad = !ok,
                    None => return Err("validator outcome open"),
                }
            }
        }
        if !bad {
            return Ok(Some((s, e)));
        }
        if s >= c.text.chars.len() {
            return Ok(None);
        }
        from = s + 1;
        if from >= c.text.chars.len() {
            return Ok(None);
        }
    }
}

fn all_tp(
    rule: &MRule,
    c: &StringCtx,
    from: usize,
    ex: bool,
    fp_kw: &mut u64,
) -> Result<Vec<(usize, usize)>, Abstain> {
    let mut out = vec![];
    let mut at = from;
    while let Some((s, e)) = next_tp(rule, c, at, ex, fp_kw)? {
        out.push((s, e));
        at = e;
    }
    Ok(out)
}

#[derive(Default, Debug, Clone)]
pub struct RuleOut {
    /// emitted matches, as char ranges
    pub emitted: Vec<(usize, usize)>,
    /// matches that may be treated as matches of an excluded path, but need not be
    pub maybe: Vec<(usize, usize)>,
    pub fp_kw: u64,
}

pub fn rule_matches(
    rule: &MRule,
    c: &StringCtx,
    path: &P,
    path_keywords: bool,
) -> Result<RuleOut, Abstain> {
    let mut out = RuleOut::default();
    let inc = rule.kw.as_ref().filter(|k| !k.inc.is_empty());
    let Some(k) = inc else {
        out.emitted = all_tp(rule, c, 0, true, &mut out.fp_kw)?;
        return Ok(out);
    };
    let len = c.text.chars.len();
    let kws: Vec<Vec<char>> = k.inc.iter().map(|x| kw_chars(x, false)).collect();
    let mut occ: Vec<(usize, usize)> = kws
        .iter()
        .flat_map(|w| occurrences(&c.text.chars, 0, len, w))
        .collect();
    occ.sort();
    occ.dedup();
    // The keyword search stops at the first end that it sees, so whether a keyword around another one
    // is seen is left open. The results with and without those have to be the same to be judged.
    // the first end among those that begin at or after each
    let mut first_end = vec![usize::MAX; occ.len() + 1];
    for i in (0..occ.len()).rev() {
        first_end[i] = first_end[i + 1].min(occ[i].1);
    }
    let outer: Vec<usize> = (0..occ.len())
        .filter(|i| first_end[occ.partition_point(|b| b.0 <= occ[*i].0)] <= occ[*i].1)
        .collect();
    if outer.len() > 4 {
        return Err("an included keyword within another one");
    }
    let mut first: Option<(Vec<(usize, usize)>, Vec<(usize, usize)>, u64)> = None;
    for seen in 0..1usize << outer.len() {
        let starts: Vec<usize> = (0..occ.len())
            .filter(|i| outer.iter().position(|o| o == i).map_or(true, |o| seen >> o & 1 == 1))
            .map(|i| occ[i].0)
            .collect();
        let (mut emitted, mut maybe, mut fp) = (vec![], vec![], 0);
        let mut start = 0;
        'kw: while let Some(&ks) = starts.get(starts.partition_point(|x| *x < start)) {
            start = ks + 1;
            let mut at = ks;
            while let Some((s, e)) = next_tp(rule, c, at, false, &mut fp)? {
                if s - ks <= k.n {
                    emitted.push((s, e));
                    start = start.max(s);
                } else {
                    maybe.push((s, e));
                    start = start.max(s.saturating_sub(k.n));
                    continue 'kw;
                }
                at = e;
            }
            break;
        }
        if let Some(f) = &first {
            // the same match may be found from several keywords
            let set = |v: &Vec<(usize, usize)>| v.iter().copied().collect::<std::collections::BTreeSet<_>>();
            if set(&f.0) != set(&emitted) || set(&f.1) != set(&maybe) {
                return Err("an included keyword within another one");
            }
        } else {
            first = Some((emitted, maybe, fp));
        }
    }
    let (emitted, maybe, fp) = first.unwrap();
    out.emitted = emitted;
    out.maybe = maybe;
    out.fp_kw += fp;
    if path_keywords {
        let any = match rule.rx.find(c.text, 0) {
            Ok(m) => m,
            Err(_) => return Err("matcher step limit"),
        };
        if any.is_some() && path_has_keyword(path, &k.inc)? {
            out.emitted.extend(all_tp(rule, c, 0, false, &mut out.fp_kw)?);
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- whole scan

#[derive(Clone, Debug, PartialEq)]
pub struct Exp {
    pub rule: usize,
    pub string: usize,
    pub path: P,
    /// byte range in the input
    pub start: usize,
    pub end: usize,
    /// byte range in the output
    pub out_start: usize,
    pub out_end: usize,
}

#[derive(Clone, Debug, Default)]
pub struct ScanOut {
    pub matches: Vec<Exp>,
    pub outputs: Vec<String>,
    /// per rule: how often an excluded keyword suppressed a match
    pub fp_kw: Vec<u64>,
    /// per rule: matches dropped by multipass
    pub fp_multipass: Vec<u64>,
    /// strings for which the event must be revisited
    pub touched: Vec<bool>,
    pub candidates: usize,
    pub overlapped: usize,
}

/// Overlap resolution. Input (rule, start, end); returns the kept ones sorted by start.
pub fn resolve(
    mut c: Vec<(usize, usize, usize)>,
    mutates: impl Fn(usize) -> bool,
) -> Vec<(usize, usize, usize)> {
    c.sort_by_key(|&(r, s, e)| (!mutates(r), s, std::cmp::Reverse(e - s), r));
    let mut kept: Vec<(usize, usize, usize)> = vec![];
    for m in c {
        if kept.iter().all(|k| k.2 <= m.1 || m.2 <= k.1) {
            kept.push(m);
        }
    }
    kept.sort_by_key(|k| k.1);
    kept
}

/// Resolves overlaps and applies the actions for one string.
pub fn apply_string(
    out: &mut ScanOut,
    si: usize,
    path: &P,
    content: &str,
    list: Vec<(usize, usize, usize)>,
    acts: &[Act],
) {
    let n = list.len();
    let kept = resolve(list, |r| acts[r].mutates());
    out.overlapped += n - kept.len();
    let mut text = String::new();
    let mut at = 0;
    for (r, s, e) in kept {
        text.push_str(&content[at..s]);
        let out_start = text.len();
        text.push_str(&acts[r].apply(&content[s..e]));
        at = e;
        out.matches.push(Exp {
            rule: r,
            string: si,
            path: path.clone(),
            start: s,
            end: e,
            out_start,
            out_end: text.len(),
        });
    }
    text.push_str(&content[at..]);
    out.outputs.push(text);
}

pub fn scan(
    rules: &[MRule],
    f: Features,
    strings: &[(P, String)],
    blocked: &[usize],
) -> Result<ScanOut, Abstain> {
    crate::rx::set_budget(40_000_000);
    let r = scan_all(rules, f, strings, blocked);
    crate::rx::set_budget(u64::MAX);
    r
}
fn scan_all(
    rules: &[MRule],
    f: Features,
    strings: &[(P, String)],
    blocked: &[usize],
) -> Result<ScanOut, Abstain> {
    let mut out = ScanOut {
        fp_kw: vec![0; rules.len()],
        fp_multipass: vec![0; rules.len()],
        ..Default::default()
    };
    let acts: Vec<Act> = rules.iter().map(|r| r.act.clone()).collect();
    let mut excluded: HashSet<String> = HashSet::new();
    let mut maybe: HashSet<String> = HashSet::new();
    let mut cands: Vec<Vec<(usize, usize, usize)>> = vec![];
    for (path, content) in strings {
        let text = Text::new(content);
        let c = StringCtx {
            text: &text,
            content,
        };
        let mut list = vec![];
        for (i, r) in rules.iter().enumerate() {
            if blocked.contains(&i) {
                continue;
            }
            let (inc, exc) = in_scope(&r.scope, path, f.implicit_wildcards);
            if !inc {
                continue;
            }
            let o = rule_matches(r, &c, path, f.path_keywords)?;
            out.fp_kw[i] += o.fp_kw;
            for (s, e) in o.emitted {
                let (bs, be) = (text.byte[s], text.byte[e]);
                if exc {
                    excluded.insert(content[bs..be].to_string());
                } else {
                    list.push((i, bs, be));
                }
            }
            if exc {
                for (s, e) in o.maybe {
                    maybe.insert(content[text.byte[s]..text.byte[e]].to_string());
                }
                // an included keyword search on an excluded path may visit other matches too
                if r.kw.as_ref().is_some_and(|k| !k.inc.is_empty()) {
                    let mut ig = 0;
                    // (the first one at or after every position)
                    let mut from = 0;
                    while let Some((s, e)) = next_tp(r, &c, from, false, &mut ig)? {
                        maybe.insert(content[text.byte[s]..text.byte[e]].to_string());
                        from = s + 1;
                    }
                }
            }
        }
        cands.push(list);
    }
    for (si, ((path, content), mut list)) in strings.iter().zip(cands).enumerate() {
        out.touched.push(!list.is_empty());
        out.candidates += list.len();
        if f.multipass {
            // duplicates count separately in the metrics, so keep them here
            let mut kept = vec![];
            for (r, s, e) in list {
                let t = &content[s..e];
                if excluded.contains(t) {
                    out.fp_multipass[r] += 1;
                } else if maybe.contains(t) {
                    return Err("match equal to one on an excluded path away from a keyword");
                } else {
                    kept.push((r, s, e));
                }
            }
            list = kept;
        }
        apply_string(&mut out, si, path, content, list, &acts);
    }
    Ok(out)
}

/// How an index is counted.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Unit {
    Utf8,
    Utf16,
    Chars,
}
pub fn count(u: Unit, s: &str) -> usize {
    match u {
        Unit::Utf8 => s.len(),
        Unit::Utf16 => s.chars().map(|c| c.len_utf16()).sum(),
        Unit::Chars => s.chars().count(),
    }
}

/// The matches the scanner should report, in order.
pub fn expected(
    acts: &[Act],
    strings: &[(P, String)],
    o: &ScanOut,
    unit: Unit,
) -> Vec<RuleMatch> {
    o.matches
        .iter()
        .map(|m| {
            let input = &strings[m.string].1;
            let output = &o.outputs[m.string];
            let end = count(unit, &output[..m.out_end]);
            RuleMatch {
                rule_index: m.rule,
                path: m.path.clone(),
                replacement_type: acts[m.rule].replacement_type(),
                start_index: count(unit, &output[..m.out_start]),
                end_index_exclusive: end,
                shift_offset: end as isize - count(unit, &input[..m.end]) as isize,
                match_value: None,
                match_status: MatchStatus::NotAvailable,
            }
        })
        .collect()
}
