//! Event trees and the ways to present them to a scanner: a monitored event (any encoding), and
//! conversions to the representations the repository provides.
use crate::model::{count, Unit, P};
use crate::util::Rng;
use dd_sds::{
    EncodeIndices, Encoding, Event, EventVisitor, Path, PathSegment, SimpleEvent, Utf8Encoding,
};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::marker::PhantomData;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    List(Vec<Val>),
    Map(Vec<(String, Val)>),
}

pub fn field(s: &str) -> PathSegment<'static> {
    PathSegment::Field(s.to_string().into())
}

impl Val {
    pub fn strings(&self) -> Vec<(P, String)> {
        fn go(v: &Val, path: &mut Vec<PathSegment<'static>>, out: &mut Vec<(P, String)>) {
            match v {
                Val::Str(s) => out.push((Path::from(path.clone()), s.clone())),
                Val::List(l) => {
                    for (i, x) in l.iter().enumerate() {
                        path.push(PathSegment::Index(i));
                        go(x, path, out);
                        path.pop();
                    }
                }
                Val::Map(m) => {
                    for (k, x) in m {
                        path.push(field(k));
                        go(x, path, out);
                        path.pop();
                    }
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    pub fn get_mut(&mut self, path: &Path) -> Option<&mut String> {
        let mut v = self;
        for seg in &path.segments {
            v = match (seg, v) {
                (PathSegment::Field(f), Val::Map(m)) => {
                    &mut m.iter_mut().find(|x| x.0 == f.as_ref())?.1
                }
                (PathSegment::Index(i), Val::List(l)) => l.get_mut(*i)?,
                _ => return None,
            };
        }
        match v {
            Val::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn set_strings(&mut self, outs: &[String]) {
        fn go(v: &mut Val, it: &mut std::slice::Iter<String>) {
            match v {
                Val::Str(s) => *s = it.next().unwrap().clone(),
                Val::List(l) => l.iter_mut().for_each(|x| go(x, it)),
                Val::Map(m) => m.iter_mut().for_each(|x| go(&mut x.1, it)),
            }
        }
        go(self, &mut outs.iter());
    }
    pub fn to_simple(&self) -> SimpleEvent {
        match self {
            Val::Str(s) => SimpleEvent::String(s.clone()),
            Val::List(l) => SimpleEvent::List(l.iter().map(|x| x.to_simple()).collect()),
            Val::Map(m) => SimpleEvent::Map(
                m.iter()
                    .map(|(k, v)| (k.clone(), v.to_simple()))
                    .collect::<BTreeMap<_, _>>(),
            ),
        }
    }
    pub fn to_json(&self) -> serde_json::Value {
        match self {
            Val::Str(s) => serde_json::Value::String(s.clone()),
            Val::List(l) => serde_json::Value::Array(l.iter().map(|x| x.to_json()).collect()),
            Val::Map(m) => {
                serde_json::Value::Object(m.iter().map(|(k, v)| (k.clone(), v.to_json())).collect())
            }
        }
    }
    pub fn to_binary(&self) -> Vec<u8> {
        fn bytes(o: &mut Vec<u8>, s: &str) {
            o.extend((s.len() as u32).to_be_bytes());
            o.extend(s.as_bytes());
        }
        fn go(v: &Val, o: &mut Vec<u8>) {
            match v {
                Val::Str(s) => {
                    o.push(3);
                    bytes(o, s);
                }
                Val::List(l) => {
                    for (i, x) in l.iter().enumerate() {
                        o.push(1);
                        o.extend((i as u32).to_be_bytes());
                        go(x, o);
                        o.push(2);
                    }
                }
                Val::Map(m) => {
                    for (k, x) in m {
                        o.push(0);
                        bytes(o, k);
                        go(x, o);
                        o.push(2);
                    }
                }
            }
        }
        let mut o = vec![];
        go(self, &mut o);
        o
    }
}

// ---------------------------------------------------------------- encodings

pub trait UnitOf {
    const UNIT: Unit;
}
impl UnitOf for Utf8Encoding {
    const UNIT: Unit = Unit::Utf8;
}
macro_rules! custom_encoding {
    ($name:ident, $unit:expr) => {
        /// An encoding that also checks what the trait promises to it.
        pub struct $name;
        impl UnitOf for $name {
            const UNIT: Unit = $unit;
        }
        impl Encoding for $name {
            type Index = usize;
            type IndexShift = isize;
            fn zero_index() -> usize {
                0
            }
            fn zero_shift() -> isize {
                0
            }
            fn get_index(value: &usize, _utf8: usize) -> usize {
                *value
            }
            fn get_shift(value: &isize, _utf8: isize) -> isize {
                *value
            }
            fn calculate_indices<'a>(
                content: &str,
                it: impl Iterator<Item = EncodeIndices<'a, Self>>,
            ) {
                // incremental, like a real implementation: relies on the promised order
                let mut at = 0;
                let mut idx = 0;
                for i in it {
                    if i.utf8_start < at {
                        crate::util::note_fault(format!(
                            "indices are not given in ascending order ({} after {})",
                            i.utf8_start, at
                        ));
                        return;
                    }
                    if !content.is_char_boundary(i.utf8_start)
                        || !content.is_char_boundary(i.utf8_end)
                        || i.utf8_end < i.utf8_start
                    {
                        crate::util::note_fault(format!(
                            "indices {}..{} are not a range of characters",
                            i.utf8_start, i.utf8_end
                        ));
                        return;
                    }
                    idx += count($unit, &content[at..i.utf8_start]);
                    at = i.utf8_start;
                    *i.custom_start = idx;
                    *i.custom_end = idx + count($unit, &content[i.utf8_start..i.utf8_end]);
                }
            }
            fn adjust_shift(shift: &mut isize, before: &str, after: &str) {
                *shift += count($unit, after) as isize - count($unit, before) as isize;
            }
        }
    };
}
custom_encoding!(Utf16Encoding, Unit::Utf16);
custom_encoding!(CharEncoding, Unit::Chars);

// ---------------------------------------------------------------- monitored event

/// An event that records and checks how the scanner uses it.
pub struct Traced<E> {
    pub val: Val,
    /// (path, might_mutate) per visited string, in order
    pub visited: Vec<(P, bool)>,
    /// (path, returned flag, whether the content really changed)
    pub mutated: Vec<(P, bool, bool)>,
    pub faults: Vec<String>,
    /// the same two, by path (independent of the library's own comparison of paths)
    flags: HashMap<String, bool>,
    done: HashSet<String>,
    _p: PhantomData<E>,
}
/// A text that only equal paths share.
fn path_key(p: &Path) -> String {
    let mut k = String::new();
    for s in &p.segments {
        match s {
            PathSegment::Field(f) => k.push_str(&format!("f{}:{f}", f.len())),
            PathSegment::Index(i) => k.push_str(&format!("i{i};")),
        }
    }
    k
}
impl<E> Traced<E> {
    pub fn new(val: Val) -> Self {
        Traced {
            val,
            visited: vec![],
            mutated: vec![],
            faults: vec![],
            flags: HashMap::new(),
            done: HashSet::new(),
            _p: PhantomData,
        }
    }
}
impl<E: Encoding> Event for Traced<E> {
    type Encoding = E;
    fn visit_event<'a>(&'a mut self, visitor: &mut impl EventVisitor<'a>) {
        fn go<'a>(
            v: &'a Val,
            path: &mut Vec<PathSegment<'static>>,
            visitor: &mut impl EventVisitor<'a>,
            visited: &mut Vec<(P, bool)>,
            faults: &mut Vec<String>,
        ) {
            match v {
                Val::Str(s) => {
                    let r = visitor.visit_string(s);
                    if r.path.segments != *path {
                        faults.push(format!(
                            "the visitor is at path {:?} but the event is at {:?}",
                            r.path,
                            Path::from(path.clone())
                        ));
                    }
                    visited.push((Path::from(path.clone()), r.might_mutate));
                }
                Val::List(l) => {
                    for (i, x) in l.iter().enumerate() {
                        visitor.push_segment(PathSegment::Index(i));
                        path.push(PathSegment::Index(i));
                        go(x, path, visitor, visited, faults);
                        path.pop();
                        visitor.pop_segment();
                    }
                }
                Val::Map(m) => {
                    for (k, x) in m {
                        visitor.push_segment(k.as_str().into());
                        path.push(field(k));
                        go(x, path, visitor, visited, faults);
                        path.pop();
                        visitor.pop_segment();
                    }
                }
            }
        }
        if !self.visited.is_empty() {
            self.faults.push("the event was visited twice in a scan".into());
        }
        go(&self.val, &mut vec![], visitor, &mut self.visited, &mut self.faults);
    }
    fn visit_string_mut(&mut self, path: &Path, mut visit: impl FnMut(&mut String) -> bool) {
        let path = path.into_static();
        if self.flags.is_empty() {
            for (p, f) in &self.visited {
                self.flags.entry(path_key(p)).or_insert(*f);
            }
        }
        let key = path_key(&path);
        match self.flags.get(&key) {
            None => self.faults.push(format!("visit_string_mut of a path that was not visited: {path:?}")),
            Some(false) => self
                .faults
                .push(format!("visit_string_mut of a string announced as not mutating: {path:?}")),
            _ => {}
        }
        if self.done.contains(&key) {
            self.faults.push(format!("visit_string_mut twice for {path:?}"));
        }
        match self.val.get_mut(&path) {
            Some(s) => {
                let before = s.clone();
                let r = visit(s);
                let changed = *s != before;
                if changed && !r {
                    self.faults.push(format!("a mutated string was reported as not mutated: {path:?}"));
                }
                self.done.insert(key);
                self.mutated.push((path, r, changed));
            }
            None => self.faults.push(format!("visit_string_mut of a path without a string: {path:?}")),
        }
    }
}

// ---------------------------------------------------------------- generation

pub const KEYS: &[&str] = &[
    "a", "b", "c", "message", "user", "Card", "api-key", "awsAccess", "AWS_KEY", "x.y", "", "é", "0", "id",
];

/// A tree with the given strings at its leaves; sometimes very deep or with very long lists.
pub fn gen_tree(rng: &mut Rng, contents: &mut Vec<String>, depth: usize, keys: &[&str]) -> Val {
    if depth == 0 || !rng.chance(1, 10) {
        return gen_subtree(rng, contents, depth, keys);
    }
    let inner_first = rng.chance(1, 2);
    let mut v = gen_subtree(rng, contents, if inner_first { depth } else { 1 }, keys);
    if rng.chance(1, 3) {
        // a long list (or map) around it
        let n = *rng.pick(&[9, 17, 33, 65, 130, 260]);
        let at = if rng.chance(2, 3) { n } else { rng.below(n) };
        if rng.chance(3, 4) {
            let mut l: Vec<Val> = (0..n).map(|_| Val::Str(String::new())).collect();
            l.insert(at, v);
            v = Val::List(l);
        } else {
            let mut m: Vec<(String, Val)> = (0..n).map(|i| (format!("k{i:03}"), Val::Str(String::new()))).collect();
            m.insert(at, (rng.word(keys).to_string(), v));
            v = Val::Map(m);
        }
    }
    let levels = match rng.below(4) {
        0 => rng.range(1, 4),
        1 => rng.range(5, 9),
        2 => rng.range(10, 20),
        _ => rng.range(30, 70),
    };
    for _ in 0..levels {
        let mut other = if rng.chance(1, 4) && !contents.is_empty() { Some(Val::Str(contents.pop().unwrap())) } else { None };
        v = if rng.chance(1, 3) {
            let mut l = vec![v];
            if let Some(o) = other.take() {
                l.insert(rng.below(2), o);
            }
            Val::List(l)
        } else {
            let mut m = vec![(rng.word(keys).to_string(), v)];
            if let Some(o) = other.take() {
                let k = rng.word(keys).to_string();
                if m[0].0 != k {
                    m.insert(rng.below(2), (k, o));
                }
            }
            Val::Map(m)
        };
    }
    v
}
fn gen_subtree(rng: &mut Rng, contents: &mut Vec<String>, depth: usize, keys: &[&str]) -> Val {
    let leaf = |rng: &mut Rng, c: &mut Vec<String>| {
        let s = if c.is_empty() || rng.chance(1, 12) {
            rng.word(&["", "a", "zz 9"]).to_string()
        } else {
            c.pop().unwrap()
        };
        Val::Str(s)
    };
    if depth == 0 || (contents.len() <= 1 && rng.chance(1, 3)) {
        return leaf(rng, contents);
    }
    if rng.chance(1, 30) {
        return if rng.chance(1, 2) { Val::List(vec![]) } else { Val::Map(vec![]) };
    }
    let n = rng.range(1, 3);
    if rng.chance(2, 5) {
        Val::List(
            (0..n)
                .map(|_| {
                    let d = rng.below(depth);
                    gen_subtree(rng, contents, d, keys)
                })
                .collect(),
        )
    } else {
        let mut m: Vec<(String, Val)> = vec![];
        for _ in 0..n {
            let mut k = rng.word(keys).to_string();
            if rng.chance(1, 16) {
                k = match rng.below(4) {
                    0 => format!("{k} "),
                    1 => format!(" {k}"),
                    2 => k.to_uppercase(),
                    _ => format!("{k}\t"),
                };
            }
            if m.iter().any(|x| x.0 == k) {
                continue;
            }
            let d = rng.below(depth);
            m.push((k, gen_subtree(rng, contents, d, keys)));
        }
        Val::Map(m)
    }
}

/// A scope path related to the event (a prefix, an extension, or a near miss of a real path).
pub fn gen_path(rng: &mut Rng, val: &Val, keys: &[&str]) -> P {
    let strings = val.strings();
    let mut segs: Vec<PathSegment<'static>> = if strings.is_empty() || rng.chance(1, 8) {
        vec![]
    } else {
        rng.pick(&strings).0.segments.clone()
    };
    if rng.chance(1, 2) {
        let n = rng.below(segs.len() + 1);
        segs.truncate(n);
    }
    // almost the same path
    let spaced = segs.iter().position(|s| matches!(s, PathSegment::Field(f) if f.trim() != f));
    if let (Some(i), true) = (spaced, rng.chance(1, 3)) {
        if let PathSegment::Field(f) = &segs[i] {
            segs[i] = field(f.trim());
        }
    } else if !segs.is_empty() && rng.chance(1, 8) {
        let i = rng.below(segs.len());
        segs[i] = match &segs[i] {
            PathSegment::Index(n) => match rng.below(3) {
                0 => field(&n.to_string()),
                1 => PathSegment::Index(n + 1),
                _ => PathSegment::Index(n.saturating_sub(1)),
            },
            PathSegment::Field(f) => match rng.below(8) {
                0 => field(&format!("{f} ")),
                1 => field(&format!(" {f}")),
                2 => field(&f.to_uppercase()),
                3 => field(&f.to_lowercase()),
                4 => field(f.trim()),
                5 => field(&f.chars().skip(1).collect::<String>()),
                6 => field(&format!("{f}{f}")),
                _ => f.parse().map(PathSegment::Index).unwrap_or_else(|_| field(&f.replace(['.', '-'], "_"))),
            },
        };
    }
    // drop indices, as configurations written for implicit wildcards do
    if rng.chance(1, 3) {
        segs.retain(|s| !s.is_index() || rng.chance(1, 2));
    }
    if rng.chance(1, 5) {
        let s = if rng.chance(1, 2) {
            PathSegment::Index(rng.below(3))
        } else {
            field(rng.word(keys))
        };
        if rng.chance(1, 2) || segs.is_empty() {
            segs.push(s);
        } else {
            let i = rng.below(segs.len());
            segs[i] = s;
        }
    }
    Path::from(segs)
}
