S = "sds/src/"
C = S + "scanner/regex_rule/compiled.rs"
M = S + "scanner/mod.rs"
K = S + "proximity_keywords/mod.rs"
A = S + "match_action.rs"
R = S + "normalization/rust_regex_adapter.rs"
RP = S + "parser/regex_parser.rs"
SR = S + "scoped_ruleset/mod.rs"
B = "sds-bindings-utils/src/binary_encoding.rs"
EJ = S + "event_json.rs"
SE = S + "simple_event.rs"
PA = S + "path.rs"
RS = S + "scanner/regex_rule/regex_store.rs"
V = S + "secondary_validation/"
G = "sds-go/rust/src/native/"
BIND = ['sds-bindings-utils = { path = "@REPO@/sds-bindings-utils" }']
GO = ['dd_sds_go = { path = "@REPO@/sds-go/rust" }']
PRE = """use dd_sds::*;
use std::sync::Arc;
#[allow(dead_code)]
fn scanner(rules: &[RegexRuleConfig]) -> Scanner {
    let r: Vec<Arc<dyn RuleConfig>> = rules.iter().map(|x| x.build()).collect();
    Scanner::builder(&r).build().unwrap()
}
#[allow(dead_code)]
fn field(s: &'static str) -> Path<'static> { Path::from(vec![PathSegment::Field(s.into())]) }
"""
def redact(r): return 'MatchAction::Redact { replacement: "%s".into() }' % r
SEEDS = [
 dict(id="fp-resume-at-end", prop="P01",
  edits=[(C, "                    if let Some(next) = get_next_regex_start(self.content, &regex_match) {\n                        self.start = next;", "                    if let Some(next) = get_next_regex_start(self.content, &regex_match) {\n                        // nothing inside of the rejected text has to be looked at again\n                        self.start = next.max(regex_match.end());")],
  needs="a candidate rejected by a checksum (or an excluded keyword) that overlaps a later, valid match",
  breaks="a true match that begins inside a rejected candidate is never reported or redacted",
  main=PRE + """fn main() {
    // 15 digits are rejected by Luhn, the 16 digits starting at the second one are a valid number
    let s = scanner(&[RegexRuleConfig::new("[0-9]{16}").validator(SecondaryValidator::LuhnChecksum).match_action(""" + redact("X") + """)]);
    let mut e = "id 94242424242424242 end".to_string();
    let m = s.scan(&mut e, vec![]);
    assert_eq!(e, "id 9X end", "{m:?}");
}
"""),
 dict(id="x-flag-class-space", prop="P02",
  edits=[(R, "} else if kind == LiteralKind::BracketedCharacterClass && literal.c.is_whitespace() {", "} else if kind == LiteralKind::BracketedCharacterClass && literal.c.is_ascii_whitespace() {")],
  needs="the extended flag x and a non-ASCII white space character inside a bracket class",
  breaks="the character silently disappears from the class, so the pattern no longer matches it",
  main=PRE + """fn main() {
    let s = scanner(&[RegexRuleConfig::new("(?x)a[\\u{2003}\\u{a0}-]b")]);
    for t in ["a\\u{2003}b", "a\\u{a0}b", "a-b"] {
        let mut e = t.to_string();
        assert_eq!(s.scan(&mut e, vec![]).len(), 1, "{t:?}");
    }
}
"""),
 dict(id="nesting-counts-groups", prop="P03",
  edits=[(RP, "            input.depth -= 1;\n", "            // (restored together with the alternation)\n")],
  needs="a pattern with more groups in sequence than the nesting limit",
  breaks="valid flat patterns with many groups are rejected as nested too deeply",
  main=PRE + """fn main() {
    for n in [1usize, 20, 49, 51, 60, 120] {
        let p = "(?:a|b)".repeat(n);
        assert!(validate_regex(&p).is_ok(), "{n} groups: {:?}", validate_regex(&p));
        let s = scanner(&[RegexRuleConfig::new(&p)]);
        let mut e = "b".repeat(n);
        assert_eq!(s.scan(&mut e, vec![]).len(), 1);
    }
}
"""),
 dict(id="overlap-last-only", prop="P04",
  edits=[(M, "                for retained_rule in &retained_rules {\n", "                // the retained matches are ordered, so the closest ones are at the end\n                for retained_rule in retained_rules.iter().rev().take(3) {\n")],
  needs="a non-mutating match that overlaps a mutating one which at least three other retained matches follow",
  breaks="two overlapping matches are reported, one of them for text that has been replaced",
  main=PRE + """fn main() {
    let s = scanner(&[
        RegexRuleConfig::new("ab[0-9]").match_action(""" + redact("[redacted]") + """),
        RegexRuleConfig::new("zab[0-9]"),
    ]);
    for n in 1..8 {
        let mut e = format!("zab0 {}", "ab1 ".repeat(n));
        let m = s.scan(&mut e, vec![]);
        assert!(m.iter().all(|m| m.rule_index == 0), "{m:?}");
        assert_eq!(m.len(), n + 1);
    }
}
"""),
 dict(id="partial-first-bytes", prop="P05",
  edits=[(A, "        let match_len = matched_content.chars().count();\n\n        let last_replacement_byte = if match_len > *num_characters {", "        let match_len = matched_content.len();\n\n        let last_replacement_byte = if match_len > *num_characters && !matched_content.is_ascii() {\n            matched_content\n                .char_indices()\n                .nth(*num_characters)\n                .map_or(match_len.min(*num_characters), |(i, _)| i)\n        } else if match_len > *num_characters {")],
  needs="a non-ASCII match with fewer characters but more bytes than the number of characters to redact",
  breaks="only a prefix of the match is redacted (or the scan panics inside a character)",
  main=PRE + """fn main() {
    for (t, n, want) in [("key \\u{e9}\\u{e9}ab end", 5usize, "key ***** end"), ("key aab\\u{6f22}\\u{6f22} end", 6, "key ****** end")] {
        let s = scanner(&[RegexRuleConfig::new("[ab\\u{e9}\\u{6f22}]{4,5}").match_action(MatchAction::PartialRedact {
            direction: PartialRedactDirection::FirstCharacters,
            character_count: n,
        })]);
        let mut e = t.to_string();
        s.scan(&mut e, vec![]);
        assert_eq!(e, want);
    }
}
"""),
 dict(id="shift-equal-bytes", prop="P06",
  edits=[(M, "                <E>::adjust_shift(\n                    custom_index_delta,\n                    before_replacement,\n                    &replacement.replacement,\n                );", "                // positions only move when the lengths differ\n                if before_replacement.len() != replacement.replacement.len() {\n                    <E>::adjust_shift(\n                        custom_index_delta,\n                        before_replacement,\n                        &replacement.replacement,\n                    );\n                }")],
  needs="an encoding other than UTF-8, and a replacement with as many bytes as the match but another number of code units",
  breaks="positions and shifts of this match's end and of all later matches of the string are wrong",
  main=PRE + """struct U16;
fn units(s: &str) -> usize { s.encode_utf16().count() }
impl Encoding for U16 {
    type Index = usize;
    type IndexShift = isize;
    fn zero_index() -> usize { 0 }
    fn zero_shift() -> isize { 0 }
    fn get_index(v: &usize, _: usize) -> usize { *v }
    fn get_shift(v: &isize, _: isize) -> isize { *v }
    fn calculate_indices<'a>(content: &str, it: impl Iterator<Item = EncodeIndices<'a, Self>>) {
        for i in it {
            *i.custom_start = units(&content[..i.utf8_start]);
            *i.custom_end = units(&content[..i.utf8_end]);
        }
    }
    fn adjust_shift(s: &mut isize, before: &str, after: &str) { *s += units(after) as isize - units(before) as isize; }
}
struct E(String);
impl Event for E {
    type Encoding = U16;
    fn visit_event<'a>(&'a mut self, v: &mut impl EventVisitor<'a>) { let _ = v.visit_string(&self.0); }
    fn visit_string_mut(&mut self, _: &Path, mut f: impl FnMut(&mut String) -> bool) { f(&mut self.0); }
}
fn main() {
    let s = scanner(&[RegexRuleConfig::new("\\u{e9}\\u{e9}").match_action(""" + redact("abcd") + """), RegexRuleConfig::new("zz")]);
    let mut e = E("\\u{e9}\\u{e9} zz".into());
    let m = s.scan(&mut e, vec![]);
    assert_eq!(e.0, "abcd zz");
    let got: Vec<_> = m.iter().map(|m| (m.start_index, m.end_index_exclusive, m.shift_offset)).collect();
    assert_eq!(got, vec![(0, 4, 2), (5, 7, 2)]);
}
"""),
 dict(id="keyword-skip-match", prop="P07",
  edits=[(C, "                    included_keyword_matches.skip_to(true_positive_match.start);", "                    included_keyword_matches.skip_to(true_positive_match.end);")],
  needs="the only keyword near a second match lies inside of a first match",
  breaks="a match whose keyword is part of an earlier match is not reported",
  main=PRE + """fn main() {
    let s = scanner(&[RegexRuleConfig::new("[a-z]+=[0-9]{3}").proximity_keywords(ProximityKeywordsConfig {
        look_ahead_character_count: 10,
        included_keywords: vec!["card".into(), "pin".into()],
        excluded_keywords: vec![],
    })]);
    let mut e = "card pin=123 -> no=456".to_string();
    let m = s.scan(&mut e, vec![]);
    // "no" starts 10 characters after neither "card" nor ... "pin" is 11 before; use the close one
    let mut f = "card pin=123 no=456".to_string();
    let n = s.scan(&mut f, vec![]);
    assert_eq!(m.len(), 1);
    assert_eq!(n.len(), 2, "{n:?}");
}
"""),
 dict(id="prefix-in-bytes", prop="P08",
  edits=[(K, "    let prefix = &content[0..match_start];\n    let mut char_indices = prefix.char_indices();\n", "    // no need to decode the whole prefix\n    let mut from = match_start.saturating_sub(4 * look_ahead_char_count);\n    while !content.is_char_boundary(from) {\n        from += 1;\n    }\n    if from > 0 && content.is_char_boundary(match_start - look_ahead_char_count) {\n        return PrefixStart {\n            start: match_start - look_ahead_char_count,\n        };\n    }\n    let prefix = &content[0..match_start];\n    let mut char_indices = prefix.char_indices();\n")],
  needs="multi-byte characters between an excluded keyword and the match, far from the start of the text",
  breaks="the look-ahead is counted in bytes, so an excluded keyword within range no longer suppresses the match",
  main=PRE + """fn main() {
    let s = scanner(&[RegexRuleConfig::new("[0-9]{4}").proximity_keywords(ProximityKeywordsConfig {
        look_ahead_character_count: 12,
        included_keywords: vec![],
        excluded_keywords: vec!["order".into()],
    })]);
    for pad in [0usize, 10, 60, 200] {
        let mut e = format!("{}order \\u{e9}\\u{e9}\\u{e9}\\u{e9} 1234", "x ".repeat(pad));
        let m = s.scan(&mut e, vec![]);
        assert!(m.is_empty(), "pad {pad}: {m:?}");
    }
}
"""),
 dict(id="path-keyword-depth", prop="P09",
  edits=[(PA, "        self.segments.iter().enumerate().for_each(|(i, segment)| {\n            if let PathSegment::Field(field) = segment {\n                if i != 0 {", "        // only the segments around the value describe it\n        let first = self.segments.len().saturating_sub(6);\n        self.segments[first..].iter().enumerate().for_each(|(i, segment)| {\n            if let PathSegment::Field(field) = segment {\n                if i != 0 {")],
  needs="a keyword in a field name more than six levels above the value, with keyword matching of event paths on",
  breaks="a keyword high up in the path of a deeply nested value is not seen, so the match is lost",
  main=PRE + """fn main() {
    let r: Vec<Arc<dyn RuleConfig>> = vec![RegexRuleConfig::new("[0-9]{4}").proximity_keywords(ProximityKeywordsConfig {
        look_ahead_character_count: 12,
        included_keywords: vec!["secret".into()],
        excluded_keywords: vec![],
    }).build()];
    let s = Scanner::builder(&r).with_keywords_should_match_event_paths(true).build().unwrap();
    let mut e: serde_json::Value = serde_json::from_str(r#"{"secret": {"a": {"b": {"c": {"d": {"e": {"f": "1234"}}}}}}, "other": "5678"}"#).unwrap();
    let m = s.scan(&mut e, vec![]);
    assert_eq!(m.len(), 1, "{m:?}");
}
""", deps=['serde_json = "1"']),
 dict(id="boolset-one-word", prop="P10",
  edits=[("sds/src/scoped_ruleset/bool_set.rs", "    rule_used: Vec<bool>,", "    // one bit per rule\n    rule_used: u64,"),
         ("sds/src/scoped_ruleset/bool_set.rs", "    pub fn new(num_rules: usize) -> Self {\n        Self {\n            rule_used: vec![false; num_rules],\n        }", "    pub fn new(_num_rules: usize) -> Self {\n        Self { rule_used: 0 }"),
         ("sds/src/scoped_ruleset/bool_set.rs", "        let result = self.rule_used[index];\n        self.rule_used[index] = true;\n        result", "        let bit = 1u64.rotate_left(index as u32);\n        let result = self.rule_used & bit != 0;\n        self.rule_used |= bit;\n        result"),
         ("sds/src/scoped_ruleset/bool_set.rs", "        self.rule_used.fill(false);", "        self.rule_used = 0;")],
  needs="more than 64 rules in scope of one string, with implicit index wildcards on",
  breaks="the 65th rule and later ones are taken for duplicates of the first ones and skipped",
  main=PRE + """fn main() {
    let r: Vec<Arc<dyn RuleConfig>> = (0..70).map(|i| {
        let p = format!("<{i}>");
        RegexRuleConfig::new(&p).build() as Arc<dyn RuleConfig>
    }).collect();
    let s = Scanner::builder(&r).with_implicit_wildcard_indexes_for_scopes(true).build().unwrap();
    let mut e = (0..70).map(|i| format!("<{i}> ")).collect::<String>();
    let m = s.scan(&mut e, vec![]);
    assert_eq!(m.iter().map(|x| x.rule_index).collect::<Vec<_>>(), (0..70).collect::<Vec<_>>());
}
"""),
 dict(id="multipass-trim", prop="P11",
  edits=[(C, "                        self.excluded_matches\n                            .insert(self.content[regex_match.range()].to_string());", "                        self.excluded_matches\n                            .insert(self.content[regex_match.range()].trim().to_string());")],
  needs="a match in an excluded path that begins or ends with white space",
  breaks="the same text elsewhere is reported although it also appears in an excluded path (and the trimmed text is dropped wrongly)",
  main=PRE + """fn main() {
    let s = scanner(&[RegexRuleConfig::new("[0-9]{4} ?").match_action(""" + redact("X") + """).scope(Scope::exclude(vec![field("skip")]))]);
    let mut e: serde_json::Value = serde_json::from_str(r#"{"skip": "n 1234 z", "t": "n 1234 z", "u": "n 1234"}"#).unwrap();
    s.scan(&mut e, vec![]);
    assert_eq!(e.to_string(), r#"{"skip":"n 1234 z","t":"n 1234 z","u":"n X"}"#);
}
""", deps=['serde_json = "1"']),
 dict(id="nir-zero-key", prop="P12",
  edits=[(V + "nir_checksum.rs", "        (97 - digit.unwrap() % 97) == checksum.unwrap()", "        (digit.unwrap() + checksum.unwrap()) % 97 == 0")],
  needs="a number divisible by 97 with the key 00, or a key above 97",
  breaks="numbers with an impossible key (00, 98, 99) pass as valid NIR numbers",
  main=PRE + """fn main() {
    let s = scanner(&[RegexRuleConfig::new("[0-9]{15}").validator(SecondaryValidator::NirChecksum)]);
    let mut n = 1_510_246_102_043i64;
    n -= n % 97;
    for (k, want) in [(97, 1), (0, 0), (25, 0)] {
        let mut e = format!("{n}{k:02}");
        assert_eq!(s.scan(&mut e, vec![]).len(), want, "{e}");
    }
}
"""),
 dict(id="blocked-sorted", prop="P13",
  edits=[(M, "            if self.blocked_rules.contains(&rule_index) {", "            if self.blocked_rules.binary_search(&rule_index).is_ok() {")],
  needs="a blocked list that is not in ascending order",
  breaks="a blocked rule is applied to the event",
  main=PRE + """fn main() {
    let s = scanner(&[RegexRuleConfig::new("a"), RegexRuleConfig::new("b"), RegexRuleConfig::new("c"), RegexRuleConfig::new("d")]);
    for (list, want) in [(vec![0, 2], vec![1, 3]), (vec![2, 0], vec![1, 3]), (vec![3, 1, 2], vec![0]), (vec![3, 2, 1, 0], vec![])] {
        let mut e = "a b c d".to_string();
        let got: Vec<usize> = s.scan(&mut e, list.clone()).iter().map(|m| m.rule_index).collect();
        assert_eq!(got, want, "blocked {list:?}");
    }
}
"""),
 dict(id="store-keeps-dead-key", prop="P15",
  edits=[(RS, "            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {\n                // cleanup old value (which must be a \"dead\" reference since `get` returned None)\n                if let Some(weak_ref) = self.key_map.remove(old_cache_key) {", "            let slot = self.pattern_index.entry(pattern.to_owned()).or_insert(cache_key);\n            let old_cache_key = *slot;\n            if old_cache_key != cache_key {\n                // cleanup old value (which must be a \"dead\" reference since `get` returned None)\n                if let Some(weak_ref) = self.key_map.remove(old_cache_key) {")],
  needs="a pattern whose scanner was dropped is compiled again, and later 1000 more patterns are compiled",
  breaks="the collector of the regex store finds a removed key and panics while the store is locked: no scanner can be built any more",
  main=PRE + """fn main() {
    drop(scanner(&[RegexRuleConfig::new("first-[0-9]")]));
    let again = scanner(&[RegexRuleConfig::new("first-[0-9]")]);
    for i in 0..1100 {
        let s = scanner(&[RegexRuleConfig::new(&format!("p{i}x"))]);
        let mut e = format!("zz p{i}x first-1");
        assert_eq!(s.scan(&mut e, vec![]).len(), 1);
    }
    let mut e = "first-1".to_string();
    assert_eq!(again.scan(&mut e, vec![]).len(), 1);
}
"""),
 dict(id="multipass-count-once", prop="P16",
  edits=[(M, "                            if is_false_positive && self.scanner_features.multipass_v0_enabled {", "                            if is_false_positive\n                                && !self.rules[rule_match.rule_index]\n                                    .get_match_action()\n                                    .is_mutating()\n                            {")],
  needs="a mutating rule whose match is dropped because its text appears in an excluded path",
  breaks="the counter of matches dropped as false positives does not count these",
  deps=['serde_json = "1"', 'metrics = "0.24.0"'],
  main=PRE + """use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static N: AtomicU64 = AtomicU64::new(0);
struct C(bool);
impl metrics::CounterFn for C {
    fn increment(&self, v: u64) { if self.0 { N.fetch_add(v, SeqCst); } }
    fn absolute(&self, _: u64) {}
}
struct R;
impl metrics::Recorder for R {
    fn describe_counter(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn describe_gauge(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn describe_histogram(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn register_counter(&self, k: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Counter {
        metrics::Counter::from_arc(Arc::new(C(k.name() == "false_positive.multipass.excluded_match")))
    }
    fn register_gauge(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Gauge { metrics::Gauge::noop() }
    fn register_histogram(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Histogram { metrics::Histogram::noop() }
}
fn main() {
    metrics::set_global_recorder(R).ok().unwrap();
    for action in [MatchAction::None, """ + redact("X") + """, MatchAction::Hash] {
        let s = scanner(&[RegexRuleConfig::new("[0-9]{4}").match_action(action).scope(Scope::exclude(vec![field("skip")]))]);
        let before = N.load(SeqCst);
        let mut e: serde_json::Value = serde_json::from_str(r#"{"skip": "1234", "t": "1234 1234", "u": "1234"}"#).unwrap();
        assert!(s.scan(&mut e, vec![]).is_empty());
        assert_eq!(N.load(SeqCst) - before, 3);
    }
}
"""),
 dict(id="json-index-skips-null", prop="P17",
  edits=[(EJ, "                for (i, value) in values.iter_mut().enumerate() {", "                for (i, value) in values.iter_mut().filter(|v| !v.is_null()).enumerate() {")],
  needs="a JSON array with a null before other elements",
  breaks="elements after a null are reported under a wrong index, and the wrong element is redacted or the scan panics",
  deps=['serde_json = "1"'],
  main=PRE + """fn main() {
    let s = scanner(&[RegexRuleConfig::new("[0-9]{4}").match_action(""" + redact("X") + """)]);
    let mut e: serde_json::Value = serde_json::from_str(r#"{"a": ["x", null, "1234", "y"]}"#).unwrap();
    let m = s.scan(&mut e, vec![]);
    assert_eq!(m[0].path.to_string(), "a[2]");
    assert_eq!(e.to_string(), r#"{"a":["x",null,"X","y"]}"#);
}
"""),
 dict(id="response-drops-empty", prop="P18",
  edits=[(B, "        if *mutated {", "        // there is nothing to send for an empty string\n        if *mutated && !content.is_empty() {")],
  needs="a redaction whose result is the empty string",
  breaks="the binding never learns that the string became empty, so the sensitive text stays in the caller's event",
  deps=BIND,
  main=PRE + """use sds_bindings_utils::{encode_response, BinaryEvent};
fn main() {
    let s = scanner(&[RegexRuleConfig::new("[0-9]{4}").match_action(""" + redact("") + """)]);
    let text = "1234";
    let mut data = vec![3u8];
    data.extend((text.len() as u32).to_be_bytes());
    data.extend(text.as_bytes());
    let mut e = BinaryEvent::<Utf8Encoding>::new(data, true);
    let m = s.scan(&mut e, vec![]);
    let r = encode_response(&e.storage, &m).unwrap();
    // tag 4: a mutation, with the content (tag 3) of length 0
    assert_eq!(&r[..6], &[4, 3, 0, 0, 0, 0], "{r:?}");
}
"""),
 dict(id="ffi-capacity-is-length", prop="P19",
  edits=[(G + "scan.rs", "            let cap = str.capacity() as i64;", "            let cap = len;")],
  needs="any scan with a match whose response buffer has spare capacity; only visible to the allocator",
  breaks="the response is freed with a size other than the one it was allocated with: undefined behaviour",
  deps=GO,
  main="""use std::alloc::{GlobalAlloc, Layout, System};
use dd_sds_go as _;
use std::collections::HashMap;
use std::ffi::{c_char, CString};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
struct Check;
static ON: AtomicBool = AtomicBool::new(false);
static BAD: AtomicUsize = AtomicUsize::new(0);
static LIVE: Mutex<Option<HashMap<usize, usize>>> = Mutex::new(None);
thread_local!(static IN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
fn note(f: impl FnOnce(&mut HashMap<usize, usize>)) {
    if !ON.load(SeqCst) || IN.with(|i| i.replace(true)) { return; }
    f(LIVE.lock().unwrap().get_or_insert_with(HashMap::new));
    IN.with(|i| i.set(false));
}
unsafe impl GlobalAlloc for Check {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        note(|m| { m.insert(p as usize, l.size()); });
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(|m| if let Some(s) = m.remove(&(p as usize)) { if s != l.size() { BAD.fetch_add(1, SeqCst); } });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        note(|m| { m.remove(&(p as usize)); m.insert(q as usize, n); });
        q
    }
}
#[global_allocator]
static A: Check = Check;
extern "C" {
    fn create_rule_list() -> i64;
    fn append_rule_to_list(rule: i64, list: i64);
    fn create_regex_rule(json: *const c_char) -> i64;
    fn create_scanner(list: i64, err: *mut *const c_char, d: bool) -> i64;
    fn scan(id: i64, e: *const u8, n: i64, size: *mut i64, cap: *mut i64, err: *mut *const c_char) -> *const c_char;
    fn free_vec(p: *const c_char, len: i64, cap: i64);
}
fn main() {
    unsafe {
        let list = create_rule_list();
        let j = CString::new(r#"{"pattern":"[0-9]{4}","match_action":{"type":"Redact","replacement":"xx"}}"#).unwrap();
        append_rule_to_list(create_regex_rule(j.as_ptr()), list);
        let mut err = std::ptr::null();
        let id = create_scanner(list, &mut err, false);
        assert!(id > 0);
        ON.store(true, SeqCst);
        for n in 1..20u32 {
            let text = "1234 ".repeat(n as usize);
            let mut e = vec![3u8];
            e.extend((text.len() as u32).to_be_bytes());
            e.extend(text.as_bytes());
            let (mut size, mut cap) = (0, 0);
            let p = scan(id, e.as_ptr(), e.len() as i64, &mut size, &mut cap, &mut err);
            assert!(!p.is_null());
            free_vec(p, size, cap);
        }
        ON.store(false, SeqCst);
    }
    assert_eq!(BAD.load(SeqCst), 0, "blocks freed with another size than they were allocated with");
}
"""),
 dict(id="keyword-length-trimmed", prop="P22",
  edits=[(K, "            if keyword.chars().count() > look_ahead_character_count {", "            if keyword.trim().len() > look_ahead_character_count {")],
  needs="a keyword with multi-byte characters close to the limit, or one padded with white space beyond it",
  breaks="valid keywords are rejected and padded ones accepted",
  main=PRE + """fn build(k: &str) -> bool {
    let r: Vec<Arc<dyn RuleConfig>> = vec![RegexRuleConfig::new("abc").proximity_keywords(ProximityKeywordsConfig {
        look_ahead_character_count: 5, included_keywords: vec![k.into()], excluded_keywords: vec![] }).build()];
    Scanner::builder(&r).build().is_ok()
}
fn main() {
    assert!(build("\\u{e9}\\u{e9}\\u{e9}\\u{e9}\\u{e9}"));
    assert!(build("abcde"));
    assert!(!build("abcdef"));
    assert!(!build("   abcde"));
}
"""),

 dict(id="cache-stack-locked", prop="P14",
  edits=[(S + "scanner/regex_rule/regex_cache_store.rs", "    static ref REGEX_CACHE_STORE: Arc<SharedPool<Box<RegexCaches>>> = Arc::new(SharedPool::new(\n        Box::new(|| Box::new(RegexCaches::new())),\n        num_cpus::get()\n    ));", "    static ref REGEX_CACHE_STORE: Mutex<Vec<Box<RegexCaches>>> =\n        Mutex::new(Vec::with_capacity(num_cpus::get()));"),
   (S + "scanner/regex_rule/regex_cache_store.rs", "    let mut caches = REGEX_CACHE_STORE.get();\n    func(caches.get_ref())", "    let mut store = REGEX_CACHE_STORE.lock().unwrap();\n    let mut caches = store.pop().unwrap_or_else(|| Box::new(RegexCaches::new()));\n    let result = func(&mut caches);\n    store.push(caches);\n    result"),
   (S + "scanner/regex_rule/regex_cache_store.rs", "use crate::SharedPool;\n", ""),
   (S + "scanner/regex_rule/regex_cache_store.rs", "use std::sync::Arc;\n", "use std::sync::Mutex;\n")],
  needs="a scan in which a rule panics (and is caught by its caller), and any other scan afterwards",
  breaks="one panicking rule makes every later scan of the process panic",
  deps=['ahash = "*"'],
  main=PRE + """use ahash::AHashSet;
struct Cfg;
struct R(MatchAction, Scope);
impl RuleConfig for Cfg {
    fn convert_to_compiled_rule(&self, _: usize, _: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        Ok(Box::new(R(MatchAction::Redact { replacement: "#".into() }, Scope::all())))
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> { None }
}
impl CompiledRule for R {
    type GroupData = ();
    type GroupConfig = ();
    type RuleScanCache = ();
    fn create_group_data(_: &Labels) {}
    fn create_group_config() {}
    fn create_rule_scan_cache() {}
    fn get_match_action(&self) -> &MatchAction { &self.0 }
    fn get_scope(&self) -> &Scope { &self.1 }
    fn get_string_matches(&self, content: &str, _: &Path, _: &mut RegexCaches, _: &mut (), _: &(), _: &mut (), _: &ExclusionCheck<'_>,
        _: &mut AHashSet<String>, e: &mut dyn MatchEmitter, _: &[usize], _: bool) {
        if content.contains("boom") { panic!("a rule fails"); }
        if let Some(i) = content.find('x') { e.emit(StringMatch { start: i, end: i + 1 }); }
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> { None }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> { None }
    fn process_scanner_config(&self, _: &mut ()) {}
}
fn main() {
    let r: Vec<Arc<dyn RuleConfig>> = vec![Arc::new(Cfg), RegexRuleConfig::new("[0-9]{3}").build()];
    let s = Scanner::builder(&r).build().unwrap();
    let scan = |t: &str| {
        let mut e = t.to_string();
        let n = s.scan(&mut e, vec![]).len();
        (n, e)
    };
    assert_eq!(scan("ax 123"), (2, "a# 123".to_string()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scan("boom")));
    assert!(r.is_err());
    let others: Vec<_> = std::thread::scope(|t| (0..4).map(|_| t.spawn(|| scan("ax 123"))).collect::<Vec<_>>().into_iter().map(|h| h.join().ok()).collect());
    assert!(others.iter().all(|o| *o == Some((2, "a# 123".to_string()))), "{others:?}");
}
"""),
 dict(id="shift-sixteen-bits", prop="P20",
  edits=[("sds-go/go/scanner.go", "shiftOffset := int32(binary.BigEndian.Uint32(buf.Next(4)))", "shiftOffset := int32(int16(binary.BigEndian.Uint32(buf.Next(4))))")],
  needs="a string whose replacements move later matches by more than 32,767 bytes",
  breaks="the Go package reports another shift than the library",
  deps=GO, main="use dd_sds_go as _;\nfn main() {}\n",
  go="""package main

import (
	"fmt"
	"os"
	"strings"

	sds "github.com/DataDog/dd-sensitive-data-scanner/sds-go/go"
)

func main() {
	r := sds.NewRedactingRule("id", "secret[0-9]", strings.Repeat("x", 40007), sds.ExtraConfig{})
	s, err := sds.CreateScanner([]sds.RuleConfig{r})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	defer s.Delete()
	res, err := s.Scan([]byte("secret1 secret2 secret3"))
	if err != nil || len(res.Matches) != 3 {
		fmt.Println("scan", err, len(res.Matches))
		os.Exit(1)
	}
	for i, m := range res.Matches {
		if int(m.ShiftOffset) != (i+1)*40000 && int(m.ShiftOffset) != i*40000 {
			fmt.Println("match", i, "is moved by", m.ShiftOffset)
			os.Exit(1)
		}
	}
}
"""),
 dict(id="invalid-range-end", prop="P21",
  edits=[(S + "match_validation/http_validator.rs", "            if invalid_range.contains(&val.status().as_u16()) {", "            if (invalid_range.start..=invalid_range.end).contains(&val.status().as_u16()) {")],
  needs="a service that answers with exactly the first status code after a configured range",
  breaks="a code outside the configured ranges marks the secret as invalid, and a valid one at the end of an invalid range is hidden",
  features='["testing", "match_validation"]',
  main=PRE + """use std::io::{Read, Write};
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    std::thread::spawn(move || for mut c in l.incoming().flatten() {
        let mut b = [0; 4096];
        let _ = c.read(&mut b);
        let _ = c.write_all(b"HTTP/1.1 404 No\\r\\nContent-Length: 0\\r\\nConnection: close\\r\\n\\r\\n");
    });
    std::env::set_var("NO_PROXY", "*");
    let status = |end: u16| {
        let mut b = HttpValidatorConfigBuilder::new(format!("http://{addr}/"));
        b.set_invalid_http_status_code(vec![400..end]).set_timeout(std::time::Duration::from_secs(20));
        let s = scanner(&[RegexRuleConfig::new("key[0-9]+").match_validation_type(MatchValidationType::CustomHttp(b.build().unwrap()))]);
        let mut e = "key1".to_string();
        let mut m = s.scan(&mut e, vec![]);
        s.validate_matches(&mut m).unwrap();
        m[0].match_status.clone()
    };
    assert_eq!(status(405), MatchStatus::Invalid);
    assert!(matches!(status(404), MatchStatus::Error(_)), "404 is not in 400..404: {:?}", status(404));
}
"""),
 dict(id="emit-in-order", prop="P23",
  edits=[(M, "                let mut emitter = |rule_match: StringMatch| {\n", "                let mut emitter = |rule_match: StringMatch| {\n                    // a rule moves forward through the text, anything before the last match was reported\n                    if path_rules_matches.last().is_some_and(|last: &InternalRuleMatch<E>| {\n                        last.rule_index == rule_index && rule_match.start < last.utf8_start\n                    }) {\n                        return;\n                    }\n"),
   (M, "                // creating the emitter is basically free, it will get mostly optimized away\n", "                // creating the emitter is basically free\n")],
  needs="a plug-in rule that emits a match which lies before the one it emitted last",
  breaks="the match is not reported and its text not redacted",
  deps=['ahash = "*"'],
  main=PRE + """use ahash::AHashSet;
struct Cfg;
struct R(MatchAction, Scope);
impl RuleConfig for Cfg {
    fn convert_to_compiled_rule(&self, _: usize, _: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        Ok(Box::new(R(MatchAction::Redact { replacement: "#".into() }, Scope::all())))
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> { None }
}
impl CompiledRule for R {
    type GroupData = ();
    type GroupConfig = ();
    type RuleScanCache = ();
    fn create_group_data(_: &Labels) {}
    fn create_group_config() {}
    fn create_rule_scan_cache() {}
    fn get_match_action(&self) -> &MatchAction { &self.0 }
    fn get_scope(&self) -> &Scope { &self.1 }
    fn get_string_matches(&self, content: &str, _: &Path, _: &mut RegexCaches, _: &mut (), _: &(), _: &mut (), _: &ExclusionCheck<'_>,
        _: &mut AHashSet<String>, e: &mut dyn MatchEmitter, _: &[usize], _: bool) {
        // from the end of the text to its beginning
        for (i, c) in content.char_indices().rev() {
            if c == 'x' { e.emit(StringMatch { start: i, end: i + 1 }); }
        }
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> { None }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> { None }
    fn process_scanner_config(&self, _: &mut ()) {}
}
fn main() {
    let r: Vec<Arc<dyn RuleConfig>> = vec![Arc::new(Cfg)];
    let s = Scanner::builder(&r).build().unwrap();
    let mut e = "ax bx cx".to_string();
    assert_eq!(s.scan(&mut e, vec![]).len(), 3, "{e}");
    assert_eq!(e, "a# b# c#");
}
"""),
]
