//! Representations of events (P17) and the binary encoding (P18).
use super::scan::opts;
use crate::events::{field, gen_tree, CharEncoding, Traced, UnitOf, Utf16Encoding, Val, KEYS};
use crate::gen::*;
use crate::model::P;
use crate::util::*;
use dd_sds::{
    Encoding, Event, EventVisitor, MatchStatus, Path, PathSegment, ReplacementType, RuleMatch, Scanner, Utf8Encoding,
    VisitStringResult,
};
use sds_bindings_utils::{encode_response, BinaryEvent};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

// ---------------------------------------------------------------- trace of a traversal

/// Records a traversal. Answers `might_mutate` from a hash of path and content, so that both
/// answers occur and the answer is known to the checker.
struct Recorder<'p> {
    path: Path<'p>,
    visits: Vec<(P, String)>,
    underflow: bool,
    salt: u64,
    max_depth: usize,
}
fn asked(salt: u64, path: &P, s: &str) -> bool {
    hash_str(&format!("{:?}{s}", path.segments)) ^ mix(salt) & 1 == 1 || salt == 0
}
impl<'p> Recorder<'p> {
    fn new(salt: u64) -> Self {
        Recorder {
            path: Path::root(),
            visits: vec![],
            underflow: false,
            salt,
            max_depth: 0,
        }
    }
}
impl<'p> EventVisitor<'p> for Recorder<'p> {
    fn push_segment(&mut self, segment: PathSegment<'p>) {
        self.path.segments.push(segment);
        self.max_depth = self.max_depth.max(self.path.segments.len());
    }
    fn pop_segment(&mut self) {
        if self.path.segments.pop().is_none() {
            self.underflow = true;
        }
    }
    fn visit_string<'s>(&'s mut self, value: &str) -> VisitStringResult<'s, 'p> {
        let p = self.path.segments.iter().map(own).collect::<Vec<_>>();
        let p = Path::from(p);
        let m = asked(self.salt, &p, value);
        self.visits.push((p, value.to_string()));
        VisitStringResult {
            might_mutate: m,
            path: &self.path,
        }
    }
}
/// An owned copy that does not rely on the code under test.
fn own(s: &PathSegment) -> PathSegment<'static> {
    match s {
        PathSegment::Field(f) => PathSegment::Field(f.to_string().into()),
        PathSegment::Index(i) => PathSegment::Index(*i),
    }
}

fn record<E: Event>(ev: &mut E, salt: u64) -> Result<(Vec<(P, String)>, bool, usize), PanicInfo> {
    guarded(|| {
        let mut r = Recorder::new(salt);
        ev.visit_event(&mut r);
        let balanced = !r.underflow && r.path.segments.is_empty();
        (r.visits, balanced, r.max_depth)
    })
}

fn same_visits(got: &[(P, String)], want: &[(P, String)]) -> bool {
    let mut a = got.to_vec();
    let mut b = want.to_vec();
    a.sort();
    b.sort();
    a == b
}

macro_rules! bad {
    ($sig:expr, $($a:tt)*) => { return Outcome::Violated($sig.into(), format!($($a)*)) };
}

// ---------------------------------------------------------------- JSON trees

/// Strings that the library sees in a JSON value: numbers and booleans by their JSON text.
fn json_strings(v: &Value) -> Vec<(P, String)> {
    fn go(v: &Value, path: &mut Vec<PathSegment<'static>>, out: &mut Vec<(P, String)>) {
        match v {
            Value::Null => {}
            Value::Bool(b) => out.push((Path::from(path.clone()), if *b { "true" } else { "false" }.to_string())),
            Value::Number(n) => out.push((Path::from(path.clone()), serde_json::to_string(n).unwrap())),
            Value::String(s) => out.push((Path::from(path.clone()), s.clone())),
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    path.push(PathSegment::Index(i));
                    go(x, path, out);
                    path.pop();
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    path.push(field(k));
                    go(x, path, out);
                    path.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}
fn json_at<'a>(v: &'a mut Value, path: &[PathSegment]) -> &'a mut Value {
    let mut v = v;
    for s in path {
        v = match s {
            PathSegment::Field(f) => v.get_mut(f.as_ref()).unwrap(),
            PathSegment::Index(i) => v.get_mut(*i).unwrap(),
        };
    }
    v
}
/// Puts numbers, booleans, nulls, empty lists and maps at some of the leaves.
fn add_scalars(rng: &mut Rng, v: Value, share: usize) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(|x| add_scalars(rng, x, share)).collect()),
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, x)| (k, add_scalars(rng, x, share))).collect()),
        Value::String(s) if rng.chance(share, 100) => match rng.below(10) {
            0 => Value::Null,
            1 => json!(true),
            2 => json!(false),
            3 => json!(rng.next()),
            4 => json!(-(rng.below(1 << 40) as i64)),
            5 => json!(rng.below(100_000_000) as f64 / 64.0),
            6 => json!(-1.5e300),
            7 => json!([]),
            8 => json!({}),
            _ => s
                .chars()
                .filter(|c| c.is_ascii_digit())
                .take(15)
                .collect::<String>()
                .parse::<u64>()
                .map(|n| json!(n))
                .unwrap_or(json!(0)),
        },
        x => x,
    }
}

fn tree(rng: &mut Rng, depth: usize) -> Val {
    let mut contents: Vec<String> = (0..rng.range(1, 8))
        .map(|i| format!("{}{}", noise(rng, true, 6), i))
        .collect();
    let d = rng.range(0, depth);
    gen_tree(rng, &mut contents, d, KEYS)
}

fn deep(rng: &mut Rng, n: usize) -> Val {
    let mut v = Val::Str(noise(rng, true, 5));
    for _ in 0..n {
        v = if rng.chance(1, 2) {
            let mut l = vec![v];
            if rng.chance(1, 8) {
                l.insert(0, Val::Str("first".into()));
            }
            Val::List(l)
        } else {
            let mut m = vec![(rng.word(KEYS).to_string(), v)];
            if rng.chance(1, 8) {
                m.push(("zzz".into(), Val::Str("last".into())));
            }
            Val::Map(m)
        };
    }
    v
}

/// Every string is handed out exactly once under its path, and mutation reaches exactly it.
fn check_event<E: Event>(
    name: &str,
    ev: &mut E,
    strings: &[(P, String)],
    salt: u64,
    rng: &mut Rng,
    decided: &dyn Fn(usize) -> bool,
) -> Option<(String, String)> {
    let fail = |k: &str, d: String| Some((format!("{name}: {k}"), d));
    match record(ev, salt) {
        Err(p) => return fail("panic", format!("visit_event of a {name} panicked at {}: {}", p.loc, p.msg)),
        Ok((v, balanced, _)) => {
            if !same_visits(&v, strings) {
                return fail("visits", format!("visited\n  {v:?}\nbut the event has\n  {strings:?}"));
            }
            if !balanced {
                return fail("unbalanced", format!("push and pop of segments are not balanced over {strings:?}"));
            }
        }
    }
    // mutate in random order
    let mut order: Vec<usize> = (0..strings.len()).filter(|i| asked(salt, &strings[*i].0, &strings[*i].1)).collect();
    rng.shuffle(&mut order);
    for i in order {
        let (path, text) = &strings[i];
        let mut seen = vec![];
        let change = decided(i);
        let r = guarded(|| {
            ev.visit_string_mut(path, |s| {
                seen.push(s.clone());
                if change {
                    *s = format!("<{i}>");
                }
                change
            })
        });
        if let Err(p) = r {
            return fail("panic", format!("visit_string_mut({path:?}) of a {name} panicked at {}: {}", p.loc, p.msg));
        }
        if seen != [text.clone()] {
            return fail("mutated string", format!("visit_string_mut({:?}) handed out {seen:?}, the string there is {text:?}", path.segments));
        }
    }
    None
}

fn visits_case(case: &mut Case) -> Outcome {
    let mut rng = case.rng.clone();
    let rng = &mut rng;
    let val = if rng.chance(1, 6) {
        let n = rng.range(1, 40);
        deep(rng, n)
    } else {
        tree(rng, 4)
    };
    let salt = if rng.chance(1, 2) { 0 } else { rng.next() | 1 };
    let dsalt = rng.next();
    let decided = move |i: usize| mix(dsalt ^ i as u64) & 3 != 0;
    let strings = val.strings();
    let changed = |strings: &[(P, String)]| -> Vec<Option<String>> {
        strings
            .iter()
            .enumerate()
            .map(|(i, (p, s))| (asked(salt, p, s) && decided(i)).then(|| format!("<{i}>")))
            .collect()
    };
    case.tagn("strings visited", strings.len() as u64);

    // simple event
    let mut ev = val.to_simple();
    if let Some((s, d)) = check_event("simple event", &mut ev, &strings, salt, rng, &decided) {
        return Outcome::Violated(s, d);
    }
    let mut want = val.clone();
    want.set_strings(
        &strings
            .iter()
            .zip(changed(&strings))
            .map(|(s, c)| c.unwrap_or(s.1.clone()))
            .collect::<Vec<_>>(),
    );
    if ev != want.to_simple() {
        bad!("simple event: result", "after mutation the event is {ev:?}, expected {want:?}");
    }
    // documented order of simple events
    let mut ev = val.to_simple();
    let order: Vec<P> = record(&mut ev, 0).ok().unwrap().0.into_iter().map(|v| v.0).collect();
    for (i, p) in order.iter().enumerate() {
        for (d, seg) in p.segments.iter().enumerate() {
            if *seg == field("message") {
                // nothing else of the same map may come earlier
                let parent = &p.segments[..d];
                if let Some(q) = order[..i]
                    .iter()
                    .find(|q| q.segments.len() > d && q.segments[..d] == *parent && q.segments[d] != *seg)
                {
                    bad!("simple event: order", "{q:?} is visited before {p:?}");
                }
                case.tag("maps with a message key");
            }
        }
    }

    // JSON, with scalars
    let jv = add_scalars(rng, val.to_json(), 25);
    let js = json_strings(&jv);
    let mut ev = jv.clone();
    if let Some((s, d)) = check_event("json", &mut ev, &js, salt, rng, &decided) {
        return Outcome::Violated(s, format!("{d}\nevent: {jv}"));
    }
    let mut want = jv.clone();
    for ((p, _), c) in js.iter().zip(changed(&js)) {
        if let Some(c) = c {
            *json_at(&mut want, &p.segments) = Value::String(c);
        }
    }
    if ev != want {
        bad!("json: result", "after mutation the event is {ev}, expected {want}");
    }
    case.tagn("json scalars", (js.len().saturating_sub(strings.len())) as u64);

    // map
    let root = match &jv {
        Value::Object(m) => m.clone(),
        other => [("root".to_string(), other.clone())].into_iter().collect(),
    };
    let jv = Value::Object(root.clone());
    let js = json_strings(&jv);
    let mut ev: HashMap<String, Value> = root.into_iter().collect();
    if let Some((s, d)) = check_event("map", &mut ev, &js, salt, rng, &decided) {
        return Outcome::Violated(s, format!("{d}\nevent: {jv}"));
    }
    let mut want = jv.clone();
    for ((p, _), c) in js.iter().zip(changed(&js)) {
        if let Some(c) = c {
            *json_at(&mut want, &p.segments) = Value::String(c);
        }
    }
    let got = Value::Object(ev.into_iter().collect());
    if got != want {
        bad!("map: result", "after mutation the event is {got}, expected {want}");
    }

    // binary
    let mut ev = BinaryEvent::<Utf8Encoding>::new(val.to_binary(), rng.chance(1, 2));
    if let Some((s, d)) = check_event("binary event", &mut ev, &strings, salt, rng, &decided) {
        return Outcome::Violated(s, d);
    }
    let want: BTreeMap<P, (bool, String)> = strings
        .iter()
        .zip(changed(&strings))
        .filter(|((p, s), _)| asked(salt, p, s))
        .map(|((p, s), c)| (p.clone(), (c.is_some(), c.unwrap_or(s.clone()))))
        .collect();
    if ev.storage != want {
        bad!("binary event: storage", "after mutation the storage is {:?}, expected {want:?}", ev.storage);
    }

    // plain string
    let s0 = strings.first().map_or(String::new(), |x| x.1.clone());
    let mut ev = s0.clone();
    let root = vec![(Path::root(), s0.clone())];
    if let Some((s, d)) = check_event("string", &mut ev, &root, 0, rng, &decided) {
        return Outcome::Violated(s, d);
    }
    let want = if decided(0) { "<0>".to_string() } else { s0 };
    if ev != want {
        bad!("string: result", "after mutation the event is {ev:?}, expected {want:?}");
    }
    case.sample = Some(json!({"event": val.to_json(), "strings": strings.len()}));
    Outcome::Held(hash_str(&format!("{val:?}")), strings.len() > 1)
}

// ---------------------------------------------------------------- scans of all representations

fn sort_matches(m: &[RuleMatch]) -> Vec<&RuleMatch> {
    let mut v: Vec<&RuleMatch> = m.iter().collect();
    v.sort_by(|a, b| (&a.path, a.start_index, a.rule_index).cmp(&(&b.path, b.start_index, b.rule_index)));
    v
}

/// The event, its strings, and the same tree with the scalars replaced by their text.
fn text_tree(v: &Value) -> Val {
    match v {
        Value::Null => Val::List(vec![]),
        other => match other {
            Value::Array(a) => Val::List(a.iter().map(text_tree).collect()),
            Value::Object(m) => Val::Map(m.iter().map(|(k, x)| (k.clone(), text_tree(x))).collect()),
            Value::String(s) => Val::Str(s.clone()),
            scalar => Val::Str(scalar.to_string()),
        },
    }
}

fn scan_with<E: Event>(s: &Scanner, ev: &mut E, blocked: &[usize], name: &str) -> Result<Vec<RuleMatch>, Outcome> {
    guarded(|| s.scan(ev, blocked.to_vec()))
        .map_err(|p| Outcome::Violated(format!("{name}: panic"), format!("scanning a {name} panicked at {}: {}", p.loc, p.msg)))
}

fn binary_scan<E: Encoding + UnitOf>(
    scanner: &Scanner,
    w: &World,
    acts_mutate: &[bool],
    valid: bool,
) -> Result<usize, Outcome> {
    let reference = match observe::<E>(scanner, &w.val, &w.blocked) {
        Ok(o) => o,
        Err((s, d)) => return Err(Outcome::Violated(s, format!("{d}\n{}", w.describe()))),
    };
    let mut ev = BinaryEvent::<E>::new(w.val.to_binary(), valid);
    let m = scan_with(scanner, &mut ev, &w.blocked, "binary event")?;
    if sort_matches(&m) != sort_matches(&reference.matches) {
        return Err(Outcome::Violated(
            "binary event: matches".into(),
            format!(
                "a binary event ({:?}) gives\n{}the same content otherwise gives\n{}{}",
                E::UNIT,
                show_matches(&m),
                show_matches(&reference.matches),
                w.describe()
            ),
        ));
    }
    let before: BTreeMap<P, String> = w.val.strings().into_iter().collect();
    let after: BTreeMap<P, String> = reference.val.strings().into_iter().collect();
    for (p, (mutated, text)) in &ev.storage {
        let has = m.iter().any(|x| x.path == *p && acts_mutate[x.rule_index]);
        if after.get(p) != Some(text) || (*mutated && !has) {
            return Err(Outcome::Violated(
                "binary event: storage".into(),
                format!("storage at {:?} is ({mutated}, {text:?}), expected text {:?}\n{}", p.segments, after.get(p), w.describe()),
            ));
        }
    }
    for (p, text) in &after {
        if before[p] != *text && ev.storage.get(p).map(|x| x.0) != Some(true) {
            return Err(Outcome::Violated(
                "binary event: mutation lost".into(),
                format!("the string at {:?} was redacted but is not marked as mutated\n{}", p.segments, w.describe()),
            ));
        }
    }
    Ok(m.len())
}

fn scans_case(case: &mut Case, k: &Knobs) -> Outcome {
    let mut w = gen_world(&mut case.rng, k);
    // some scalars, presented as their text to the reference run
    let jv = add_scalars(&mut case.rng, w.val.to_json(), 15);
    w.val = text_tree(&jv);
    let scanner = match build_scanner(&w.rules, w.feats) {
        Ok(s) => s,
        Err(_) => return Outcome::Abstain("the rules are not accepted"),
    };
    let reference = match observe::<Utf8Encoding>(&scanner, &w.val, &w.blocked) {
        Ok(o) => o,
        Err((s, d)) => return Outcome::Violated(s, format!("{d}\n{}", w.describe())),
    };
    let before = w.val.strings();
    let after: HashMap<P, String> = reference.val.strings().into_iter().collect();
    let changed: Vec<&P> = before.iter().filter(|(p, s)| after[p] != *s).map(|x| &x.0).collect();
    let acts_mutate: Vec<bool> = w.rules.iter().map(|r| r.act.mutates()).collect();
    case.tagn("matches compared", reference.matches.len() as u64);
    case.tagn("strings redacted", changed.len() as u64);
    macro_rules! same {
        ($name:expr, $m:expr) => {
            if sort_matches(&$m) != sort_matches(&reference.matches) {
                bad!(
                    format!("{}: matches", $name),
                    "a {} gives\n{}the same content otherwise gives\n{}{}",
                    $name,
                    show_matches(&$m),
                    show_matches(&reference.matches),
                    w.describe()
                );
            }
        };
    }
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(o) => return o,
            }
        };
    }
    // simple event
    let mut ev = w.val.to_simple();
    let m = t!(scan_with(&scanner, &mut ev, &w.blocked, "simple event"));
    same!("simple event", m);
    if ev != reference.val.to_simple() {
        bad!("simple event: content", "the scanned event is {ev:?}, expected {:?}\n{}", reference.val, w.describe());
    }
    // JSON
    let mut want = jv.clone();
    for p in &changed {
        *json_at(&mut want, &p.segments) = Value::String(after[p].clone());
    }
    // a scalar that was replaced by its own text may become a string
    let same_json = |got: &Value| -> bool {
        if *got == want {
            return true;
        }
        let mut got = got.clone();
        for m in &reference.matches {
            let (g, o) = (json_at(&mut got, &m.path.segments), json_at(&mut want.clone(), &m.path.segments).clone());
            if acts_mutate[m.rule_index] && !o.is_string() && *g == Value::String(o.to_string()) {
                *g = o;
            }
        }
        got == want
    };
    let mut ev = jv.clone();
    let m = t!(scan_with(&scanner, &mut ev, &w.blocked, "json"));
    same!("json", m);
    if !same_json(&ev) {
        bad!("json: content", "the scanned event is {ev}, expected {want}\n{}", w.describe());
    }
    // map
    if let Value::Object(o) = &jv {
        let mut ev: HashMap<String, Value> = o.clone().into_iter().collect();
        let m = t!(scan_with(&scanner, &mut ev, &w.blocked, "map"));
        same!("map", m);
        let got = Value::Object(ev.into_iter().collect());
        if !same_json(&got) {
            bad!("map: content", "the scanned event is {got}, expected {want}\n{}", w.describe());
        }
        case.tag("map events");
    }
    // string
    if let Val::Str(s) = &w.val {
        let mut ev = s.clone();
        let m = t!(scan_with(&scanner, &mut ev, &w.blocked, "string"));
        same!("string", m);
        if Val::Str(ev.clone()) != reference.val {
            bad!("string: content", "the scanned event is {ev:?}, expected {:?}\n{}", reference.val, w.describe());
        }
        case.tag("string events");
    }
    // binary, in one of the encodings
    let valid = case.rng.chance(1, 2);
    t!(match case.rng.below(3) {
        0 => binary_scan::<Utf8Encoding>(&scanner, &w, &acts_mutate, valid),
        1 => binary_scan::<Utf16Encoding>(&scanner, &w, &acts_mutate, valid),
        _ => binary_scan::<CharEncoding>(&scanner, &w, &acts_mutate, valid),
    });
    case.sample = Some(json!({"event": jv, "rules": w.rules.len(), "matches": reference.matches.len()}));
    Outcome::Held(hash_str(&w.describe()), !reference.matches.is_empty())
}

/// The path type itself: comparison, prefixes, text form, ownership.
fn paths_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    let a = gen_any_path(rng);
    let mut segs = a.segments.iter().map(own).collect::<Vec<_>>();
    match rng.below(5) {
        0 => {
            let n = rng.below(segs.len() + 1);
            segs.truncate(n);
        }
        1 => segs.push(field("b")),
        2 if !segs.is_empty() => {
            let i = rng.below(segs.len());
            segs[i] = if segs[i].is_index() { field("0") } else { PathSegment::Index(0) };
        }
        3 if !segs.is_empty() => {
            let i = rng.below(segs.len());
            segs[i] = match &segs[i] {
                PathSegment::Field(f) => field(&format!("{f}x")),
                PathSegment::Index(n) => PathSegment::Index(n ^ 1),
            };
        }
        _ => {}
    }
    let b: P = Path::from(segs.clone());
    let key = |p: &P| p.segments.iter().map(|s| match s {
        PathSegment::Field(f) => (0, f.to_string(), 0),
        PathSegment::Index(i) => (1, String::new(), *i),
    }).collect::<Vec<_>>();
    let (ka, kb) = (key(&a), key(&b));
    let prefix = kb.len() <= ka.len() && ka[..kb.len()] == kb[..];
    if a.starts_with(&b) != prefix {
        bad!("path prefix", "{:?} starts with {:?}: {}, expected {prefix}", a.segments, b.segments, a.starts_with(&b));
    }
    if (a == b) != (ka == kb) || (a.cmp(&b) == std::cmp::Ordering::Equal) != (ka == kb) {
        bad!("path equality", "{:?} == {:?}: {}", a.segments, b.segments, a == b);
    }
    if a.cmp(&b) != b.cmp(&a).reverse() {
        bad!("path order", "the order of {:?} and {:?} is not antisymmetric", a.segments, b.segments);
    }
    if a.to_string() != path_text(&a) || format!("{a:?}") != path_text(&a) {
        bad!("path text", "{:?} is written as {a}, expected {}", a.segments, path_text(&a));
    }
    let c = a.into_static();
    if key(&c) != ka || a.len() != ka.len() || a.is_empty() != ka.is_empty() {
        bad!("path copy", "{:?} is copied to {:?}", a.segments, c.segments);
    }
    let text = serde_json::to_string(&a).unwrap();
    match serde_json::from_str::<P>(&text) {
        Ok(p) if p == a => {}
        other => bad!("path round trip", "{:?} is written as {text} and read as {other:?}", a.segments),
    }
    if prefix {
        case.tag("path prefixes");
    }
    Outcome::Held(hash_str(&format!("{ka:?}{kb:?}")), !ka.is_empty())
}

pub fn p17(ctx: &Ctx) {
    ctx.phase("paths", opts(ctx, 20_000, 5.0), paths_case);
    ctx.phase("visits", opts(ctx, 30_000, 12.0), visits_case);
    let k = Knobs {
        rules: (1, 4),
        mutate: 70,
        depth: 3,
        strings: (1, 6),
        scope: 30,
        path_keywords: 20,
        inc: 10,
        exc: 10,
        implicit: 30,
        no_multipass: 40,
        repeat: 15,
        simple: 60,
        ..Knobs::default()
    };
    ctx.phase("scans", opts(ctx, 30_000, 14.0), |case| scans_case(case, &k));
    let big = Knobs { big: 100, ..k };
    ctx.phase("scans, scale", opts(ctx, 600, 8.0), |case| scans_case(case, &big));
    // wide and deep events
    ctx.phase("large", opts(ctx, 60, 8.0), |case| {
        let wide = case.rng.chance(1, 2);
        let val = if wide {
            let n = if case.rng.chance(1, 5) {
                case.rng.range(9_000, 20_000)
            } else {
                case.rng.range(300, 1500)
            };
            Val::List(
                (0..n)
                    .map(|i| {
                        if i % 3 == 0 {
                            Val::Map(vec![(format!("k{i}"), Val::Str(format!("n{i} é 4{i}4")))])
                        } else {
                            Val::Str(format!("v{i}-{}", i * 7919))
                        }
                    })
                    .collect(),
            )
        } else {
            let n = case.rng.range(100, 400);
            deep(&mut case.rng, n)
        };
        let strings = val.strings();
        let rule = dd_sds::RegexRuleConfig::new("[0-9]{2,}|é|last")
            .match_action(dd_sds::MatchAction::Redact {
                replacement: "[é]".into(),
            })
            .build();
        let scanner = Scanner::builder(&[rule]).build().unwrap();
        let mut traced = Traced::<Utf8Encoding>::new(val.clone());
        let m0 = scanner.scan(&mut traced, vec![]);
        let mut simple = val.to_simple();
        let m1 = scanner.scan(&mut simple, vec![]);
        let mut js = val.to_json();
        let m2 = scanner.scan(&mut js, vec![]);
        let mut bin = BinaryEvent::<Utf8Encoding>::new(val.to_binary(), true);
        let m3 = scanner.scan(&mut bin, vec![]);
        for (n, m) in [("simple event", &m1), ("json", &m2), ("binary event", &m3)] {
            if sort_matches(m) != sort_matches(&m0) {
                bad!(format!("{n}: matches"), "{} matches in a {n}, {} otherwise ({} strings)", m.len(), m0.len(), strings.len());
            }
        }
        if simple != traced.val.to_simple() || js != traced.val.to_json() {
            bad!("large: content", "a large event of {} strings is not redacted alike", strings.len());
        }
        for (p, s) in traced.val.strings() {
            if s.contains("[é]") && bin.storage.get(&p) != Some(&(true, s.clone())) {
                bad!("binary event: storage", "storage of a large event at {p:?} is {:?}, expected {s:?}", bin.storage.get(&p));
            }
        }
        case.tagn("strings in large events", strings.len() as u64);
        Outcome::Held(hash_str(&format!("{val:?}")), true)
    });
}

// ---------------------------------------------------------------- P18 binary encoding

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Field(Vec<u8>),
    Index(u32),
    Pop,
    Str(Vec<u8>),
}
fn encode_ops(ops: &[Op]) -> Vec<u8> {
    let mut o = vec![];
    for op in ops {
        match op {
            Op::Field(b) => {
                o.push(0);
                o.extend((b.len() as u32).to_be_bytes());
                o.extend(b);
            }
            Op::Index(i) => {
                o.push(1);
                o.extend(i.to_be_bytes());
            }
            Op::Pop => o.push(2),
            Op::Str(b) => {
                o.push(3);
                o.extend((b.len() as u32).to_be_bytes());
                o.extend(b);
            }
        }
    }
    o
}
/// Independent decoder: the operations up to the first malformed one, and whether there was one.
fn decode_ops(b: &[u8]) -> (Vec<Op>, bool) {
    let mut at = 0;
    let mut out = vec![];
    fn u32_at(b: &[u8], at: usize) -> Option<u32> {
        b.get(at..at + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]))
    }
    while at < b.len() {
        let tag = b[at];
        match tag {
            0 | 3 => {
                let Some(n) = u32_at(b, at + 1) else { return (out, true) };
                let Some(x) = b.get(at + 5..at + 5 + n as usize) else { return (out, true) };
                out.push(if tag == 0 { Op::Field(x.to_vec()) } else { Op::Str(x.to_vec()) });
                at += 5 + n as usize;
            }
            1 => {
                let Some(n) = u32_at(b, at + 1) else { return (out, true) };
                out.push(Op::Index(n));
                at += 5;
            }
            2 => {
                out.push(Op::Pop);
                at += 1;
            }
            _ => return (out, true),
        }
    }
    (out, false)
}
/// Standard replacement of ill-formed sequences (maximal subparts), without the library's help.
fn lossy(b: &[u8]) -> String {
    let mut s = String::new();
    let mut rest = b;
    loop {
        match std::str::from_utf8(rest) {
            Ok(x) => {
                s.push_str(x);
                return s;
            }
            Err(e) => {
                s.push_str(std::str::from_utf8(&rest[..e.valid_up_to()]).unwrap());
                s.push('\u{FFFD}');
                match e.error_len() {
                    Some(n) => rest = &rest[e.valid_up_to() + n..],
                    None => return s,
                }
            }
        }
    }
}
fn ops_strings(ops: &[Op]) -> (Vec<(P, String)>, bool) {
    let mut path: Vec<PathSegment<'static>> = vec![];
    let mut out = vec![];
    let mut under = false;
    for op in ops {
        match op {
            Op::Field(b) => path.push(field(&lossy(b))),
            Op::Index(i) => path.push(PathSegment::Index(*i as usize)),
            Op::Pop => under |= path.pop().is_none(),
            Op::Str(b) => out.push((Path::from(path.clone()), lossy(b))),
        }
    }
    (out, under)
}
fn gen_bytes(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 400) {
        let n = *rng.pick(&[4_096, 32_768, 65_535, 65_536, 70_000]);
        return "aé\0".bytes().cycle().take(n).collect();
    }
    match rng.below(8) {
        0 => vec![],
        1 => (0..rng.below(12)).map(|_| rng.next() as u8).collect(),
        2 => {
            // cut and patched UTF-8
            let mut b = noise(rng, true, 8).into_bytes();
            if !b.is_empty() {
                let n = rng.below(b.len()) + 1;
                b.truncate(n);
                if rng.chance(1, 2) {
                    let i = rng.below(b.len());
                    b[i] = *rng.pick(&[0x80, 0xC0, 0xE2, 0xF0, 0xFF, 0xED, 0x00]);
                }
            }
            b
        }
        3 => "x".repeat(rng.range(100, 700)).into_bytes(),
        4 => "a\0b\u{1F600}é".as_bytes().to_vec(),
        _ => format!("{}{}", noise(rng, true, 5), rng.below(100_000)).into_bytes(),
    }
}
fn gen_ops(rng: &mut Rng) -> Vec<Op> {
    let mut ops = vec![];
    let mut depth = 0;
    for _ in 0..rng.range(1, 30) {
        match rng.below(7) {
            0 | 1 => {
                ops.push(Op::Field(if rng.chance(1, 2) { rng.word(KEYS).into() } else { gen_bytes(rng) }));
                depth += 1;
            }
            2 => {
                ops.push(Op::Index(*rng.pick(&[0, 1, 2, 7, 255, 256, 65_536, u32::MAX, 0x0102_0304])));
                depth += 1;
            }
            3 | 4 => ops.push(Op::Str(gen_bytes(rng))),
            _ => {
                if depth > 0 {
                    ops.push(Op::Pop);
                    depth -= 1;
                }
            }
        }
    }
    for _ in 0..depth {
        ops.push(Op::Pop);
    }
    ops
}

fn decode_case(case: &mut Case) -> Outcome {
    let ops = gen_ops(&mut case.rng);
    let bytes = encode_ops(&ops);
    let (want, _) = ops_strings(&ops);
    let valid = ops.iter().all(|o| match o {
        Op::Field(b) | Op::Str(b) => std::str::from_utf8(b).is_ok(),
        _ => true,
    });
    if !valid {
        case.tag("buffers with ill-formed text");
    }
    let salt = case.rng.next() | 1;
    for trusted in [false, true] {
        if trusted && !valid {
            continue;
        }
        let mut ev = BinaryEvent::<Utf8Encoding>::new(bytes.clone(), trusted);
        match record(&mut ev, salt) {
            Err(p) => bad!("decode panic", "decoding {ops:?} panicked at {}: {}", p.loc, p.msg),
            Ok((v, balanced, _)) => {
                if v != want || !balanced {
                    bad!("decode", "decoding {ops:?} visited\n  {v:?}\nexpected\n  {want:?}");
                }
            }
        }
        // storage holds exactly the strings that may be mutated
        let mut keys: BTreeMap<P, Vec<&String>> = BTreeMap::new();
        for (p, s) in &want {
            if asked(salt, p, s) {
                keys.entry(p.clone()).or_default().push(s);
            }
        }
        for (p, (m, s)) in &ev.storage {
            if *m || !keys.get(p).is_some_and(|x| x.contains(&s)) {
                bad!("storage", "storage has ({m}, {s:?}) at {:?}; strings there: {:?}", p.segments, keys.get(p));
            }
        }
        if ev.storage.len() != keys.len() {
            bad!("storage", "storage has {} entries, {} strings may be mutated", ev.storage.len(), keys.len());
        }
    }
    case.tagn("operations decoded", ops.len() as u64);
    Outcome::Held(hash_str(&format!("{ops:?}")), !want.is_empty())
}

fn malformed_case(case: &mut Case) -> Outcome {
    let ops = gen_ops(&mut case.rng);
    let mut b = encode_ops(&ops);
    let rng = &mut case.rng;
    for _ in 0..rng.range(1, 4) {
        if b.is_empty() {
            b.push(rng.next() as u8);
            continue;
        }
        let i = rng.below(b.len());
        match rng.below(7) {
            0 => b.truncate(i),
            1 => b[i] = rng.next() as u8,
            2 => b[i] = *rng.pick(&[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff]),
            3 => b.insert(i, rng.next() as u8),
            4 => {
                b.remove(i);
            }
            5 => {
                let n = rng.below(8);
                b.extend((0..n).map(|_| rng.below(6) as u8).collect::<Vec<_>>());
            }
            _ => {
                // a length that reaches beyond the end
                let mut x = vec![*rng.pick(&[0u8, 3])];
                let len = *rng.pick(&[u32::MAX, u32::MAX - 4, 0x8000_0000, 1, 2, b.len() as u32]);
                x.extend(len.to_be_bytes());
                b.splice(i..i, x);
            }
        }
    }
    let (prefix, malformed) = decode_ops(&b);
    let (want, under) = ops_strings(&prefix);
    let twice = want.iter().enumerate().any(|(i, x)| want[..i].iter().any(|y| y.0 == x.0));
    let mut ev = BinaryEvent::<Utf8Encoding>::new(b.clone(), false);
    let mut rec = Recorder::new(0);
    // what was visited before the error is visible through the recorder
    let r = {
        let rec = std::panic::AssertUnwindSafe(&mut rec);
        let ev = std::panic::AssertUnwindSafe(&mut ev);
        guarded(move || {
            let (rec, ev) = (rec, ev);
            ev.0.visit_event(rec.0)
        })
    };
    if r.is_err() != malformed {
        bad!("malformed", "a buffer that is {}malformed was {}\n{b:?}", if malformed { "" } else { "not " }, if r.is_err() { "rejected" } else { "accepted" });
    }
    if rec.visits != want {
        bad!("malformed visits", "visited {:?}, expected {want:?}\n{b:?}", rec.visits);
    }
    // the same through a scanner
    let rule = dd_sds::RegexRuleConfig::new("[0-9x]+")
        .match_action(dd_sds::MatchAction::Redact {
            replacement: "*".into(),
        })
        .build();
    let s = Scanner::builder(&[rule]).build().unwrap();
    for _ in 0..2 {
        let mut ev = BinaryEvent::<Utf8Encoding>::new(b.clone(), false);
        let r = guarded(|| s.scan(&mut ev, vec![]));
        if malformed && r.is_ok() {
            bad!("malformed scan", "a malformed buffer was scanned without an error\n{b:?}");
        }
        // (two strings under one path cannot be told apart by the scanner)
        if !malformed && !under && !twice && r.is_err() {
            bad!("scan", "scanning a well-formed buffer failed\n{b:?}");
        }
        let mut text = "a 12 x".to_string();
        let m = s.scan(&mut text, vec![]);
        if m.len() != 2 || text != "a * *" {
            bad!("aftermath", "after a scan of {b:?} the scanner gives {m:?}, {text:?}");
        }
    }
    case.tag(if malformed { "malformed buffers" } else { "altered but well-formed buffers" });
    if under {
        case.tag("pop at the root");
    }
    Outcome::Held(hash_str(&format!("{b:?}")), true)
}

#[derive(Debug, PartialEq, Clone)]
pub struct WireMatch {
    pub rule: u32,
    pub path: String,
    pub kind: String,
    pub start: u32,
    pub end: u32,
    pub shift: i32,
}
/// Independent decoder of responses.
pub fn decode_response(b: &[u8]) -> Result<(Vec<(P, String)>, Vec<WireMatch>), String> {
    struct R<'a>(&'a [u8]);
    impl R<'_> {
        fn take(&mut self, n: usize) -> Result<&[u8], String> {
            if self.0.len() < n {
                return Err("truncated".into());
            }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Ok(a)
        }
        fn u32(&mut self) -> Result<u32, String> {
            Ok(self.take(4)?.iter().fold(0, |a, x| a << 8 | *x as u32))
        }
        fn str(&mut self) -> Result<String, String> {
            let n = self.u32()? as usize;
            String::from_utf8(self.take(n)?.to_vec()).map_err(|_| "text is not UTF-8".into())
        }
    }
    let mut r = R(b);
    let (mut muts, mut ms) = (vec![], vec![]);
    while !r.0.is_empty() {
        match r.take(1)?[0] {
            4 => {
                if !ms.is_empty() {
                    return Err("a mutation after a match".into());
                }
                let mut path = vec![];
                loop {
                    match r.take(1)?[0] {
                        0 => path.push(field(&r.str()?)),
                        1 => path.push(PathSegment::Index(r.u32()? as usize)),
                        3 => break,
                        t => return Err(format!("tag {t} in a mutation")),
                    }
                }
                muts.push((Path::from(path), r.str()?));
            }
            5 => ms.push(WireMatch {
                rule: r.u32()?,
                path: r.str()?,
                kind: r.str()?,
                start: r.u32()?,
                end: r.u32()?,
                shift: r.u32()? as i32,
            }),
            t => return Err(format!("tag {t}")),
        }
    }
    Ok((muts, ms))
}
fn path_text(p: &P) -> String {
    let mut s = String::new();
    for (i, seg) in p.segments.iter().enumerate() {
        match seg {
            PathSegment::Field(f) => {
                if i > 0 {
                    s.push('.');
                }
                s.push_str(f);
            }
            PathSegment::Index(n) => {
                s.push('[');
                s.push_str(&n.to_string());
                s.push(']');
            }
        }
    }
    s
}
pub fn to_wire(m: &RuleMatch) -> WireMatch {
    WireMatch {
        rule: m.rule_index as u32,
        path: path_text(&m.path),
        kind: match m.replacement_type {
            ReplacementType::None => "none",
            ReplacementType::Placeholder => "placeholder",
            ReplacementType::Hash => "hash",
            ReplacementType::PartialStart => "partial_beginning",
            ReplacementType::PartialEnd => "partial_end",
        }
        .into(),
        start: m.start_index as u32,
        end: m.end_index_exclusive as u32,
        shift: m.shift_offset as i32,
    }
}

fn gen_any_path(rng: &mut Rng) -> P {
    let n = if rng.chance(1, 12) { rng.range(5, 40) } else { rng.below(5) };
    Path::from(
        (0..n)
            .map(|_| {
                if rng.chance(1, 3) {
                    PathSegment::Index(*rng.pick(&[0, 1, 9, 10, 300, 70_000, u32::MAX as usize]))
                } else if rng.chance(1, 2) {
                    field(rng.word(KEYS))
                } else {
                    field(&lossy(&gen_bytes(rng)))
                }
            })
            .collect::<Vec<_>>(),
    )
}

fn response_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    let mut storage: BTreeMap<P, (bool, String)> = BTreeMap::new();
    let many = rng.chance(1, 100);
    let n = if many { rng.range(100, 700) } else { rng.below(6) };
    for i in 0..n {
        let mut p = gen_any_path(rng);
        if many {
            p.segments.push(PathSegment::Index(i));
        }
        storage.insert(p, (rng.chance(1, 2), lossy(&gen_bytes(rng))));
    }
    if rng.chance(1, 60) {
        // long strings and names
        let len = *rng.pick(&[128, 256, 32_768, 65_535, 65_536, 70_000]);
        let s: String = "aé0".chars().cycle().take(len).collect();
        let p = if rng.chance(1, 2) { Path::from(vec![field(&s), PathSegment::Index(1)]) } else { Path::from(vec![field("x")]) };
        storage.insert(p, (true, s));
    }
    let nums = [0usize, 1, 127, 128, 255, 256, 65_535, 65_536, 0x0102_0304, u32::MAX as usize];
    let nm = if rng.chance(1, 100) { rng.range(100, 700) } else { rng.below(7) };
    let matches: Vec<RuleMatch> = (0..nm)
        .map(|_| RuleMatch {
            rule_index: *rng.pick(&nums),
            path: if storage.is_empty() || rng.chance(1, 3) {
                gen_any_path(rng)
            } else {
                let n = rng.below(storage.len());
                storage.keys().nth(n).unwrap().clone()
            },
            replacement_type: match rng.below(5) {
                0 => ReplacementType::None,
                1 => ReplacementType::Placeholder,
                2 => ReplacementType::Hash,
                3 => ReplacementType::PartialStart,
                _ => ReplacementType::PartialEnd,
            },
            start_index: *rng.pick(&nums),
            end_index_exclusive: *rng.pick(&nums),
            shift_offset: *rng.pick(&[0isize, 1, -1, -2, 255, 256, -256, -257, 100_000, -100_000, i32::MAX as isize, i32::MIN as isize]),
            match_value: rng.chance(1, 4).then(|| "secret".to_string()),
            match_status: MatchStatus::NotAvailable,
        })
        .collect();
    match encode_response(&storage, &matches) {
        None => {
            if !matches.is_empty() {
                bad!("response missing", "no response for {matches:?}");
            }
            case.tag("empty responses");
        }
        Some(b) => {
            if matches.is_empty() {
                bad!("response not empty", "a response without matches: {b:?}");
            }
            let (muts, ms) = match decode_response(&b) {
                Ok(x) => x,
                Err(e) => bad!("response format", "{e}: {b:?} for {matches:?} {storage:?}"),
            };
            let want: Vec<WireMatch> = matches.iter().map(to_wire).collect();
            if ms != want {
                bad!("response matches", "decoded {ms:?}\nexpected {want:?}");
            }
            let mut got = muts.clone();
            got.sort();
            let want: Vec<(P, String)> = storage.iter().filter(|x| x.1 .0).map(|(p, x)| (p.clone(), x.1.clone())).collect();
            if got != want {
                bad!("response mutations", "decoded {got:?}\nexpected {want:?}");
            }
            case.tagn("matches decoded", ms.len() as u64);
            case.tagn("mutations decoded", muts.len() as u64);
        }
    }
    Outcome::Held(hash_str(&format!("{storage:?}{matches:?}")), !matches.is_empty())
}

/// Event bytes in, response bytes out.
fn end_to_end_case(case: &mut Case, k: &Knobs) -> Outcome {
    let w = gen_world(&mut case.rng, k);
    let scanner = match build_scanner(&w.rules, w.feats) {
        Ok(s) => s,
        Err(_) => return Outcome::Abstain("the rules are not accepted"),
    };
    let reference = match observe::<Utf8Encoding>(&scanner, &w.val, &w.blocked) {
        Ok(o) => o,
        Err((s, d)) => return Outcome::Violated(s, format!("{d}\n{}", w.describe())),
    };
    let mut ev = BinaryEvent::<Utf8Encoding>::new(w.val.to_binary(), case.rng.chance(1, 2));
    let m = match scan_with(&scanner, &mut ev, &w.blocked, "binary event") {
        Ok(m) => m,
        Err(o) => return o,
    };
    match encode_response(&ev.storage, &m) {
        None => {
            if !reference.matches.is_empty() {
                bad!("end to end", "no response\n{}", w.describe());
            }
        }
        Some(b) => {
            if let Some(d) = judge_response(&w, &reference, &b) {
                bad!("end to end", "{d}\n{}", w.describe());
            }
        }
    }
    case.tagn("matches decoded", reference.matches.len() as u64);
    Outcome::Held(hash_str(&w.describe()), !reference.matches.is_empty())
}

/// Compares a response with the observed scan of the same content.
pub fn judge_response(w: &World, reference: &Observed, b: &[u8]) -> Option<String> {
    let (muts, ms) = match decode_response(b) {
        Ok(x) => x,
        Err(e) => return Some(format!("the response cannot be decoded: {e}")),
    };
    let mut want: Vec<WireMatch> = reference.matches.iter().map(to_wire).collect();
    let mut got = ms.clone();
    let key = |m: &WireMatch| (m.path.clone(), m.start, m.end, m.rule, m.shift, m.kind.clone());
    want.sort_by_key(key);
    got.sort_by_key(key);
    if got != want {
        return Some(format!("decoded matches {got:?}\nexpected {want:?}"));
    }
    let before: BTreeMap<P, String> = w.val.strings().into_iter().collect();
    let after: BTreeMap<P, String> = reference.val.strings().into_iter().collect();
    for (i, (p, s)) in muts.iter().enumerate() {
        if muts[..i].iter().any(|x| x.0 == *p) {
            return Some(format!("two mutations of {:?}", p.segments));
        }
        if after.get(p) != Some(s) {
            return Some(format!("mutation {:?} = {s:?}, expected {:?}", p.segments, after.get(p)));
        }
        if !reference.matches.iter().any(|m| m.path == *p && w.rules[m.rule_index].act.mutates()) {
            return Some(format!("mutation of {:?}, which has no redacting match", p.segments));
        }
    }
    for (p, s) in &after {
        if before[p] != *s && !muts.iter().any(|x| x.0 == *p) {
            return Some(format!("the redacted string at {:?} is missing in the response", p.segments));
        }
    }
    None
}

pub fn p18(ctx: &Ctx) {
    ctx.phase("decode", opts(ctx, 40_000, 8.0), decode_case);
    ctx.phase("malformed", opts(ctx, 40_000, 10.0), malformed_case);
    ctx.phase("response", opts(ctx, 40_000, 8.0), response_case);
    let k = Knobs {
        rules: (1, 4),
        mutate: 70,
        depth: 3,
        strings: (1, 6),
        scope: 20,
        no_multipass: 40,
        repeat: 15,
        simple: 60,
        ..Knobs::default()
    };
    ctx.phase("end to end", opts(ctx, 25_000, 10.0), |case| end_to_end_case(case, &k));
    let big = Knobs { big: 100, ..k };
    ctx.phase("end to end, scale", opts(ctx, 800, 8.0), |case| end_to_end_case(case, &big));
    ctx.phase("end to end, wide", opts(ctx, 12, 10.0), wide_case);
}

/// One event of very many strings, most of them redacted: every match and every redacted
/// string must be in the response.
fn wide_case(case: &mut Case) -> Outcome {
    let n = case.rng.range(6_000, 30_000);
    let step = case.rng.range(2, 9);
    let more = ".".repeat(*case.rng.pick(&[0, 20, 60]));
    let leaf = |i: usize| {
        let text = if i % step == 0 { format!("nothing {}", "é".repeat(i % 4)) } else { format!("é{i}: 4{i}4, 77{more}") };
        (format!("k{i}"), Val::Str(text))
    };
    let val = Val::Map((0..n).step_by(128).map(|g| (format!("g{g}"), Val::Map((g..n.min(g + 128)).map(leaf).collect()))).collect());
    let rule = dd_sds::RegexRuleConfig::new("[0-9]{2,}")
        .match_action(dd_sds::MatchAction::Redact { replacement: "[é]".into() })
        .build();
    let scanner = Scanner::builder(&[rule]).build().unwrap();
    let reference = match observe::<Utf8Encoding>(&scanner, &val, &[]) {
        Ok(o) => o,
        Err((s, d)) => return Outcome::Violated(s, d),
    };
    let mut ev = BinaryEvent::<Utf8Encoding>::new(val.to_binary(), true);
    let m = match scan_with(&scanner, &mut ev, &[], "binary event") {
        Ok(m) => m,
        Err(o) => return o,
    };
    let Some(b) = encode_response(&ev.storage, &m) else {
        bad!("wide: no response", "no response for an event of {n} strings with {} matches", reference.matches.len());
    };
    let (muts, ms) = match decode_response(&b) {
        Ok(x) => x,
        Err(e) => bad!("wide: response", "the response of an event of {n} strings cannot be decoded: {e}"),
    };
    let mut want: Vec<WireMatch> = reference.matches.iter().map(to_wire).collect();
    let mut got = ms;
    let key = |m: &WireMatch| (m.path.clone(), m.start, m.end, m.rule, m.shift, m.kind.clone());
    want.sort_by_key(key);
    got.sort_by_key(key);
    if got != want {
        bad!("wide: matches", "{} matches decoded, {} expected in an event of {n} strings (or different ones)", got.len(), want.len());
    }
    let before: BTreeMap<P, String> = val.strings().into_iter().collect();
    let after: BTreeMap<P, String> = reference.val.strings().into_iter().collect();
    let changed: BTreeMap<&P, &String> = after.iter().filter(|(p, s)| before[*p] != **s).collect();
    let given: BTreeMap<&P, &String> = muts.iter().map(|(p, s)| (p, s)).collect();
    if given.len() != muts.len() || given != changed {
        bad!("wide: mutations", "{} mutations decoded, {} strings redacted in an event of {n} strings (or different ones)", muts.len(), changed.len());
    }
    case.tagn("strings in wide events", n as u64);
    case.tagn("mutations decoded", muts.len() as u64);
    Outcome::Held(hash_str(&format!("{n} {step}")), true)
}
