//! An independent implementation of the SDS regex dialect: abstract syntax, a random generator,
//! a printer (with many spellings of the same thing), and a backtracking matcher with
//! leftmost-first semantics. It shares nothing with the implementation under test.
use crate::util::Rng;

// ---------------------------------------------------------------- characters

/// Characters that are equal under simple case folding.
const FOLD: &[&str] = &["kK\u{212a}", "sS\u{17f}", "éÉ", "σςΣ", "ßẞ", "åÅ\u{212b}", "жЖ"];

pub fn equivs(c: char) -> Vec<char> {
    for set in FOLD {
        if set.contains(c) {
            return set.chars().collect();
        }
    }
    if c.is_ascii_alphabetic() {
        return vec![c.to_ascii_lowercase(), c.to_ascii_uppercase()];
    }
    vec![c]
}

/// The characters of generated content: every one of them is known to `equivs` and `category`.
pub const ALPHABET: &str = "abcdxyzABCXYZ0129_-. ,@#:/\\+*?!&~'\"<>(){}[]|^$%=;`\n\r\t\u{b}\u{c}\u{7}\u{8}\u{1b}\u{1}\u{0}kKsS\u{212a}\u{17f}éÉσςΣßẞåÅжЖ€😏漢٣½ª\u{a0}\u{85}\u{2028}\u{3000}\u{301}";

/// (general category, script) of the non-ASCII characters used.
fn props(c: char) -> (&'static str, &'static str) {
    match c {
        'a'..='z' => ("Ll", "Latin"),
        'A'..='Z' => ("Lu", "Latin"),
        '0'..='9' => ("Nd", "Common"),
        '_' => ("Pc", "Common"),
        '-' => ("Pd", "Common"),
        '(' | '[' | '{' => ("Ps", "Common"),
        ')' | ']' | '}' => ("Pe", "Common"),
        '.' | ',' | '@' | '#' | ':' | '/' | '\\' | '*' | '?' | '!' | '&' | '\'' | '"' | '%'
        | ';' => ("Po", "Common"),
        '+' | '<' | '>' | '|' | '~' | '=' => ("Sm", "Common"),
        '$' => ("Sc", "Common"),
        '^' | '`' => ("Sk", "Common"),
        ' ' | '\u{a0}' | '\u{3000}' => ("Zs", "Common"),
        '\u{2028}' => ("Zl", "Common"),
        '\u{212a}' | '\u{212b}' => ("Lu", "Latin"),
        '\u{17f}' | 'é' | 'å' | 'ß' => ("Ll", "Latin"),
        'É' | 'Å' | 'ẞ' => ("Lu", "Latin"),
        'σ' | 'ς' => ("Ll", "Greek"),
        'Σ' => ("Lu", "Greek"),
        'ж' => ("Ll", "Cyrillic"),
        'Ж' => ("Lu", "Cyrillic"),
        '€' => ("Sc", "Common"),
        '😏' => ("So", "Common"),
        '漢' => ("Lo", "Han"),
        '٣' => ("Nd", "Arabic"), // script Common in fact: see prop_matches
        '½' => ("No", "Common"),
        'ª' => ("Lo", "Latin"),
        '\u{301}' => ("Mn", "Inherited"),
        c if (c as u32) < 32 || (0x7f..0xa0).contains(&(c as u32)) => ("Cc", "Common"),
        _ => ("?", "?"),
    }
}
pub const PROP_NAMES: &[&str] = &[
    "L", "Lu", "Ll", "Lo", "N", "Nd", "No", "P", "Pd", "Pc", "Po", "Ps", "Pe", "S", "Sc", "Sm",
    "So", "Sk", "Z", "Zs", "Zl", "M", "Mn", "C", "Cc", "Greek", "Cyrillic", "Han", "Latin",
];
fn prop_matches(name: &str, c: char) -> bool {
    let (cat, script) = props(c);
    assert!(cat != "?", "unknown char {c:?}");
    if name.len() == 1 {
        cat.starts_with(name)
    } else if name.len() == 2 {
        cat == name
    } else {
        script == name
    }
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Fl {
    pub i: bool,
    pub m: bool,
    pub s: bool,
    pub x: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Ch(char),
    Range(char, char),
    Perl(char),                // d s w D S W h H v V
    Ascii(&'static str, bool), // name, negated
    Prop(&'static str, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Empty,
    Lit(char),
    /// \Q...\E
    Quote(String),
    Dot,
    Perl(char),
    Prop(&'static str, bool),
    Class(Vec<Item>, bool),
    Assert(char), // ^ $ b B A z Z
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(Box<Node>, u32, Option<u32>, bool), // min, max, greedy
    /// kind: 0 capturing, 1 non-capturing with flags, 2.. named
    Group(u8, Vec<char>, Vec<char>, Box<Node>),
    SetFlags(Vec<char>, Vec<char>),
}

pub const ASCII_CLASSES: &[&str] = &[
    "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct",
    "space", "upper", "word", "xdigit",
];

pub fn ascii_class(name: &str, c: char) -> bool {
    if !c.is_ascii() {
        return false;
    }
    match name {
        "alnum" => c.is_ascii_alphanumeric(),
        "alpha" => c.is_ascii_alphabetic(),
        "ascii" => true,
        "blank" => c == ' ' || c == '\t',
        "cntrl" => c.is_ascii_control(),
        "digit" => c.is_ascii_digit(),
        "graph" => c.is_ascii_graphic(),
        "lower" => c.is_ascii_lowercase(),
        "print" => c.is_ascii_graphic() || c == ' ',
        "punct" => c.is_ascii_punctuation(),
        "space" => matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}'),
        "upper" => c.is_ascii_uppercase(),
        "word" => is_word(c),
        "xdigit" => c.is_ascii_hexdigit(),
        _ => unreachable!(),
    }
}
pub fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
pub fn perl(k: char, c: char) -> bool {
    match k.to_ascii_lowercase() {
        'd' => c.is_ascii_digit(),
        's' => matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}'),
        'w' => is_word(c),
        'h' => c == ' ' || c == '\t',
        'v' => matches!(c, '\n' | '\r' | '\u{b}' | '\u{c}'),
        _ => unreachable!(),
    }
}

/// A set, possibly closed under case folding before it is negated.
fn closed(icase: bool, c: char, neg: bool, f: impl Fn(char) -> bool) -> bool {
    let hit = if icase {
        equivs(c).into_iter().any(f)
    } else {
        f(c)
    };
    hit != neg
}

fn item_matches(it: &Item, icase: bool, c: char) -> bool {
    match it {
        Item::Ch(x) => closed(icase, c, false, |c| c == *x),
        Item::Range(a, b) => closed(icase, c, false, |c| *a <= c && c <= *b),
        Item::Perl(k) => closed(icase, c, k.is_ascii_uppercase(), |c| perl(*k, c)),
        Item::Ascii(n, neg) => closed(icase, c, *neg, |c| ascii_class(n, c)),
        Item::Prop(n, neg) => closed(icase, c, *neg, |c| prop_matches(n, c)),
    }
}

// ---------------------------------------------------------------- resolved form + matcher

#[derive(Clone, Debug)]
pub enum R {
    Empty,
    Lit(char, bool),
    Any(bool),
    Perl(char, bool),
    Prop(&'static str, bool, bool),
    Class(Vec<Item>, bool, bool),
    Bol(bool),
    Eol(bool),
    Wb,
    NotWb,
    Cat(Vec<R>),
    Alt(Vec<R>),
    Rep(Box<R>, u32, Option<u32>, bool),
}

#[derive(Clone, Debug)]
pub struct Rx {
    pub pattern: String,
    /// what `pattern` is a spelling of
    pub node: Node,
    pub r: R,
}

pub struct Matcher<'a> {
    text: &'a [char],
    steps: u64,
}
pub struct OutOfSteps;

thread_local! {
    static BUDGET: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
/// Work that the reference may still do on this thread before it gives up.
pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
}
fn spend(n: u64) -> bool {
    BUDGET.with(|b| {
        let left = b.get().saturating_sub(n);
        b.set(left);
        left == 0
    })
}

const STEP_LIMIT: u64 = 60_000;

impl Matcher<'_> {
    fn step(&mut self, r: &R, pos: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        self.steps += 1;
        if self.steps > STEP_LIMIT {
            return false;
        }
        let n = self.text.len();
        let wb = |m: &Self| {
            let a = pos > 0 && is_word(m.text[pos - 1]);
            let b = pos < n && is_word(m.text[pos]);
            a != b
        };
        let one = |m: &mut Self, ok: bool, k: &mut dyn FnMut(&mut Self, usize) -> bool| {
            ok && k(m, pos + 1)
        };
        match r {
            R::Empty => k(self, pos),
            R::Lit(c, i) => {
                let ok = pos < n && closed(*i, self.text[pos], false, |x| x == *c);
                one(self, ok, k)
            }
            R::Any(s) => {
                let ok = pos < n && (*s || self.text[pos] != '\n');
                one(self, ok, k)
            }
            R::Perl(p, i) => {
                let ok = pos < n
                    && closed(*i, self.text[pos], p.is_ascii_uppercase(), |c| perl(*p, c));
                one(self, ok, k)
            }
            R::Prop(name, neg, i) => {
                let ok =
                    pos < n && closed(*i, self.text[pos], *neg, |c| prop_matches(name, c));
                one(self, ok, k)
            }
            R::Class(items, neg, i) => {
                let ok = pos < n && {
                    let c = self.text[pos];
                    closed(*i, c, *neg, |c| items.iter().any(|it| item_matches(it, *i, c)))
                };
                one(self, ok, k)
            }
            R::Bol(m) => {
                if pos == 0 || (*m && self.text[pos - 1] == '\n') {
                    k(self, pos)
                } else {
                    false
                }
            }
            R::Eol(m) => {
                if pos == n || (*m && self.text[pos] == '\n') {
                    k(self, pos)
                } else {
                    false
                }
            }
            R::Wb => wb(self) && k(self, pos),
            R::NotWb => !wb(self) && k(self, pos),
            R::Cat(v) => self.cat(v, pos, k),
            R::Alt(v) => {
                for x in v {
                    if self.step(x, pos, k) {
                        return true;
                    }
                }
                false
            }
            R::Rep(x, min, max, greedy) => self.rep(x, *min, *max, *greedy, pos, k),
        }
    }
    fn cat(&mut self, v: &[R], pos: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        match v.split_first() {
            None => k(self, pos),
            Some((h, t)) => self.step(h, pos, &mut |m, p| m.cat(t, p, k)),
        }
    }
    fn rep(
        &mut self,
        x: &R,
        min: u32,
        max: Option<u32>,
        greedy: bool,
        pos: usize,
        k: &mut dyn FnMut(&mut Self, usize) -> bool,
    ) -> bool {
        if self.steps > STEP_LIMIT {
            return false;
        }
        if min > 0 {
            return self.step(x, pos, &mut |m, p| {
                m.rep(x, min - 1, max.map(|y| y - 1), greedy, p, k)
            });
        }
        if max == Some(0) {
            return k(self, pos);
        }
        if !greedy && k(self, pos) {
            return true;
        }
        let unbounded = max.is_none();
        let again = self.step(x, pos, &mut |m, p| {
            if unbounded && p == pos {
                return false; // the generator never repeats a nullable expression without bound
            }
            m.rep(x, 0, max.map(|y| y - 1), greedy, p, k)
        });
        if again {
            return true;
        }
        greedy && k(self, pos)
    }
}

/// Text with the mapping from char index to byte index.
#[derive(Clone, Debug)]
pub struct Text {
    pub chars: Vec<char>,
    pub byte: Vec<usize>,
}
impl Text {
    pub fn new(s: &str) -> Self {
        let mut byte: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
        byte.push(s.len());
        Text {
            chars: s.chars().collect(),
            byte,
        }
    }
}

impl Rx {
    /// Leftmost-first match at or after char index `from` (char indices).
    pub fn find(&self, t: &Text, from: usize) -> Result<Option<(usize, usize)>, OutOfSteps> {
        let mut total = 0;
        for s in from..=t.chars.len() {
            let mut m = Matcher {
                text: &t.chars,
                steps: 0,
            };
            let mut end = None;
            m.step(&self.r, s, &mut |_, p| {
                end = Some(p);
                true
            });
            total += m.steps;
            if spend(m.steps + 5) {
                return Err(OutOfSteps);
            }
            if m.steps > STEP_LIMIT || total > 10 * STEP_LIMIT {
                return Err(OutOfSteps);
            }
            if let Some(e) = end {
                return Ok(Some((s, e)));
            }
        }
        Ok(None)
    }
}

// ---------------------------------------------------------------- printing + resolving

pub struct Printer<'a> {
    pub rng: &'a mut Rng,
    pub out: String,
    pub names: usize,
    /// use unusual spellings
    pub fancy: bool,
}

const META: &str = "\\.+*?()|[]{}^$#&-~";
/// letters that cannot be escaped in the dialect, or that mean something when they are
fn escapable(c: char) -> bool {
    !c.is_ascii_alphanumeric()
}

impl Printer<'_> {
    fn lit(&mut self, c: char, x: bool) {
        let must_escape = "\\.+*?()|[^${".contains(c) || (x && (c == '#' || c.is_whitespace()));
        let r = if self.fancy { self.rng.below(10) } else { 9 };
        let named = match c {
            '\u{7}' => Some("\\a"),
            '\u{1b}' => Some("\\e"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        if let Some(nm) = named {
            if r < 4 {
                self.out.push_str(nm);
                return;
            }
        }
        if x && c.is_whitespace() && r >= 3 {
            match r {
                3 | 4 => self.out.push_str(&format!("\\Q{c}\\E")),
                5..=7 => {
                    self.out.push('\\');
                    self.out.push(c)
                }
                _ => self.out.push_str(&format!("\\x{{{:x}}}", c as u32)),
            }
            return;
        }
        match r {
            0 => self.out.push_str(&format!("\\x{{{:X}}}", c as u32)),
            1 if (c as u32) < 256 => self.out.push_str(&format!("\\x{:02x}", c as u32)),
            2 if (1..=26).contains(&(c as u32)) => {
                let l = (b'a' + (c as u8) - 1) as char;
                let l = if self.rng.chance(1, 2) {
                    l.to_ascii_uppercase()
                } else {
                    l
                };
                self.out.push_str(&format!("\\c{l}"));
            }
            3 => self.out.push_str(&format!("\\Q{c}\\E")),
            4 if escapable(c) && c.is_ascii_graphic() => {
                self.out.push('\\');
                self.out.push(c)
            }
            5 if "ijmqy".contains(c) => {
                self.out.push('\\');
                self.out.push(c)
            }
            _ => {
                if must_escape {
                    self.out.push('\\');
                }
                self.out.push(c);
            }
        }
    }

    fn class_char(&mut self, c: char) {
        let r = if self.fancy { self.rng.below(8) } else { 7 };
        match r {
            0 => self.out.push_str(&format!("\\x{{{:X}}}", c as u32)),
            1 if (c as u32) < 256 => self.out.push_str(&format!("\\x{:02X}", c as u32)),
            2 if c == '\u{8}' => self.out.push_str("\\b"),
            2 if c == '\n' => self.out.push_str("\\n"),
            2 if c == '\t' => self.out.push_str("\\t"),
            3 if escapable(c) && c.is_ascii_graphic() => {
                self.out.push('\\');
                self.out.push(c)
            }
            _ => {
                if META.contains(c) || c == ':' || c == '=' {
                    if "^]\\-[:=".contains(c) || self.rng.chance(1, 2) {
                        self.out.push('\\');
                    }
                    self.out.push(c);
                } else {
                    self.out.push(c);
                }
            }
        }
    }

    fn quant(&mut self, min: u32, max: Option<u32>, greedy: bool) {
        let s = match (min, max) {
            (0, None) if self.rng.chance(3, 4) => "*".to_string(),
            (1, None) if self.rng.chance(3, 4) => "+".to_string(),
            (0, Some(1)) if self.rng.chance(3, 4) => "?".to_string(),
            (a, Some(b)) if a == b && self.rng.chance(3, 4) => format!("{{{a}}}"),
            (a, Some(b)) => format!("{{{a},{b}}}"),
            (a, None) => format!("{{{a},}}"),
        };
        self.out.push_str(&s);
        if !greedy {
            self.out.push('?');
        }
    }

    fn space(&mut self, f: &Fl) {
        if f.x && self.rng.chance(1, 4) {
            self.out.push_str(self.rng.word(&[" ", "  ", "\t", "\n"]));
        }
    }

    fn flags(&mut self, add: &[char], rem: &[char]) {
        self.out.extend(add);
        if !rem.is_empty() {
            self.out.push('-');
            self.out.extend(rem);
        }
    }

    pub fn node(&mut self, n: &Node, f: &mut Fl) -> R {
        match n {
            Node::Empty => R::Empty,
            Node::Lit(c) => {
                self.lit(*c, f.x);
                R::Lit(*c, f.i)
            }
            Node::Quote(s) => {
                self.out.push_str("\\Q");
                self.out.push_str(s);
                self.out.push_str("\\E");
                R::Cat(s.chars().map(|c| R::Lit(c, f.i)).collect())
            }
            Node::Dot => {
                self.out.push('.');
                R::Any(f.s)
            }
            Node::Perl(k) => {
                self.out.push('\\');
                self.out.push(*k);
                R::Perl(*k, f.i)
            }
            Node::Prop(name, neg) => {
                self.out
                    .push_str(&format!("\\{}{{{}}}", if *neg { 'P' } else { 'p' }, name));
                R::Prop(name, *neg, f.i)
            }
            Node::Class(items, neg) => {
                self.out.push('[');
                if *neg {
                    self.out.push('^');
                }
                for (at, it) in items.iter().enumerate() {
                    match it {
                        // a closing bracket is literal in the first position
                        Item::Ch(']') if self.fancy && at == 0 && self.rng.chance(1, 2) => self.out.push(']'),
                        // a trailing dash is literal
                        Item::Ch('-') if self.fancy && at + 1 == items.len() && at > 0 && self.rng.chance(1, 2) => {
                            self.out.push('-')
                        }
                        Item::Ch(c) => self.class_char(*c),
                        Item::Range(a, b) => {
                            self.class_char(*a);
                            self.out.push('-');
                            self.class_char(*b);
                        }
                        Item::Perl(k) => {
                            self.out.push('\\');
                            self.out.push(*k)
                        }
                        Item::Ascii(n, neg) => self
                            .out
                            .push_str(&format!("[:{}{}:]", if *neg { "^" } else { "" }, n)),
                        Item::Prop(n, neg) => self
                            .out
                            .push_str(&format!("\\{}{{{}}}", if *neg { 'P' } else { 'p' }, n)),
                    }
                }
                self.out.push(']');
                R::Class(items.clone(), *neg, f.i)
            }
            Node::Assert(a) => {
                match a {
                    '^' | '$' => self.out.push(*a),
                    _ => {
                        self.out.push('\\');
                        self.out.push(*a)
                    }
                }
                let nl = || R::Rep(Box::new(R::Lit('\n', false)), 0, Some(1), true);
                match a {
                    '^' => R::Bol(f.m),
                    '$' => R::Cat(vec![nl(), R::Eol(f.m)]),
                    'A' => R::Bol(false),
                    'z' => R::Eol(false),
                    'Z' => R::Cat(vec![nl(), R::Eol(false)]),
                    'b' => R::Wb,
                    'B' => R::NotWb,
                    _ => unreachable!(),
                }
            }
            Node::Cat(v) => {
                let mut out = vec![];
                for x in v {
                    self.space(f);
                    out.push(self.node(x, f));
                }
                self.space(f);
                R::Cat(out)
            }
            Node::Alt(v) => {
                let mut out = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push('|');
                    }
                    out.push(self.node(x, f));
                }
                R::Alt(out)
            }
            Node::Rep(x, min, max, greedy) => {
                // a quantifier after \Q..\E applies to its last character only
                let r = self.node(x, f);
                self.quant(*min, *max, *greedy);
                match (x.as_ref(), r) {
                    (Node::Quote(_), R::Cat(mut v)) => {
                        let last = v.pop().expect("empty quote is never repeated");
                        v.push(R::Rep(Box::new(last), *min, *max, *greedy));
                        R::Cat(v)
                    }
                    (_, r) => R::Rep(Box::new(r), *min, *max, *greedy),
                }
            }
            Node::Group(kind, add, rem, x) => {
                let mut g = *f;
                match kind {
                    0 => self.out.push('('),
                    1 => {
                        self.out.push_str("(?");
                        self.flags(add, rem);
                        self.out.push(':');
                        apply(&mut g, add, rem);
                    }
                    k => {
                        self.names += 1;
                        let nm = format!("n{}_{}", self.names, k);
                        match k % 3 {
                            0 => self.out.push_str(&format!("(?<{nm}>")),
                            1 => self.out.push_str(&format!("(?P<{nm}>")),
                            _ => self.out.push_str(&format!("(?'{nm}'")),
                        }
                    }
                }
                let r = self.node(x, &mut g);
                self.out.push(')');
                r
            }
            Node::SetFlags(add, rem) => {
                self.out.push_str("(?");
                self.flags(add, rem);
                self.out.push(')');
                apply(f, add, rem);
                R::Empty
            }
        }
    }
}

fn apply(f: &mut Fl, add: &[char], rem: &[char]) {
    for (list, v) in [(add, true), (rem, false)] {
        for c in list {
            match c {
                'i' => f.i = v,
                'm' => f.m = v,
                's' => f.s = v,
                'x' => f.x = v,
                _ => unreachable!(),
            }
        }
    }
}

/// Prints the node (once), returning the pattern and the resolved form.
pub fn build(node: &Node, rng: &mut Rng, fancy: bool) -> Rx {
    let node = &if fancy { decorate(node, rng) } else { node.clone() };
    let mut p = Printer {
        rng,
        out: String::new(),
        names: 0,
        fancy,
    };
    let r = p.node(node, &mut Fl::default());
    Rx {
        pattern: p.out,
        node: node.clone(),
        r,
    }
}

/// Adds brackets and dashes to classes, where they have special spellings.
fn decorate(n: &Node, rng: &mut Rng) -> Node {
    match n {
        Node::Class(v, neg) => {
            let mut v = v.clone();
            if rng.chance(1, 6) {
                v.insert(0, Item::Ch(']'));
            }
            if rng.chance(1, 6) {
                v.push(Item::Ch('-'));
            }
            Node::Class(v, *neg)
        }
        Node::Cat(v) => Node::Cat(v.iter().map(|x| decorate(x, rng)).collect()),
        Node::Alt(v) => Node::Alt(v.iter().map(|x| decorate(x, rng)).collect()),
        Node::Rep(x, a, b, c) => Node::Rep(Box::new(decorate(x, rng)), *a, *b, *c),
        Node::Group(k, a, b, x) => Node::Group(*k, a.clone(), b.clone(), Box::new(decorate(x, rng))),
        n => n.clone(),
    }
}

// ---------------------------------------------------------------- generation

pub fn nullable(n: &Node) -> bool {
    match n {
        Node::Empty | Node::Assert(_) | Node::SetFlags(..) => true,
        Node::Lit(_) | Node::Dot | Node::Perl(_) | Node::Prop(..) | Node::Class(..) => false,
        Node::Quote(s) => s.is_empty(),
        Node::Cat(v) => v.iter().all(nullable),
        Node::Alt(v) => v.iter().any(nullable),
        Node::Rep(x, min, _, _) => *min == 0 || nullable(x),
        Node::Group(_, _, _, x) => nullable(x),
    }
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub depth: usize,
    pub fancy: bool,
    pub flags: bool,
    pub asserts: bool,
}

fn gen_flag_lists(rng: &mut Rng) -> (Vec<char>, Vec<char>) {
    let mut add = vec![];
    let mut rem = vec![];
    for _ in 0..rng.range(0, 2) {
        add.push(*rng.pick(&['i', 'i', 'm', 's', 'x']));
    }
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 2) {
            rem.push(*rng.pick(&['i', 'm', 's', 'x']));
        }
    }
    if add.is_empty() && rem.is_empty() {
        add.push('i');
    }
    (add, rem)
}

fn gen_lit(rng: &mut Rng, fancy: bool) -> char {
    if fancy && rng.chance(1, 4) {
        rng.pick_char(ALPHABET)
    } else {
        rng.pick_char("aabbccxyzABX0129_-. @ksé")
    }
}

fn gen_class(rng: &mut Rng, fancy: bool) -> Node {
    let mut items = vec![];
    for _ in 0..rng.range(1, 3) {
        let k = rng.below(if fancy { 10 } else { 6 });
        items.push(match k {
            0..=2 => Item::Ch(gen_lit(rng, fancy)),
            3 | 4 => {
                let ranges: &[(char, char)] = &[
                    ('a', 'c'),
                    ('A', 'Z'),
                    ('0', '9'),
                    ('x', 'z'),
                    ('+', '/'),
                    ('a', 'z'),
                    ('b', 'y'),
                    ('!', '~'),
                    (' ', '-'),
                    ('\u{0}', '\u{1f}'),
                    ('à', 'ü'),
                    ('Α', 'Ω'),
                    ('\u{2000}', '\u{2fff}'),
                    ('0', '0'),
                ];
                let r = *rng.pick(if fancy { ranges } else { &ranges[..7] });
                Item::Range(r.0, r.1)
            }
            5 => Item::Perl(*rng.pick(&['d', 's', 'w'])),
            6 => Item::Perl(*rng.pick(&['D', 'S', 'W', 'h', 'H', 'v', 'V'])),
            7 | 8 => Item::Ascii(rng.word(ASCII_CLASSES), rng.chance(1, 4)),
            _ => Item::Prop(rng.word(PROP_NAMES), rng.chance(1, 4)),
        });
    }
    Node::Class(items, rng.chance(1, if fancy { 4 } else { 8 }))
}

fn gen_atom(rng: &mut Rng, o: GenOpts) -> Node {
    match rng.below(20) {
        0..=7 => Node::Lit(gen_lit(rng, o.fancy)),
        8..=10 => Node::Perl(*rng.pick(&['d', 'd', 'w', 's', 'w', 'D', 'S', 'W'])),
        11 if o.fancy => Node::Perl(*rng.pick(&['h', 'H', 'v', 'V'])),
        12 => Node::Dot,
        13 if o.fancy => Node::Prop(rng.word(PROP_NAMES), rng.chance(1, 4)),
        14 if o.fancy => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 3) {
                s.push(if rng.chance(1, 4) {
                    *rng.pick(&['\\', ' ', '\t', '\n', '\r', '\u{b}', '\u{a0}', '\u{85}', '\u{3000}', '#', '-', ']', '{'])
                } else {
                    gen_lit(rng, true)
                });
            }
            if s.contains("\\E") {
                s = "a.b".to_string();
            }
            Node::Quote(s)
        }
        15 | 16 if o.depth > 0 => {
            let inner = gen_alt(
                rng,
                GenOpts {
                    depth: o.depth - 1,
                    ..o
                },
            );
            let kind = rng.below(6) as u8;
            let (add, rem) = if kind == 1 && o.flags && rng.chance(1, 2) {
                gen_flag_lists(rng)
            } else {
                (vec![], vec![])
            };
            Node::Group(kind, add, rem, Box::new(inner))
        }
        17 if o.asserts => Node::Assert(*rng.pick(&['b', 'b', 'B', '^', '$', 'A', 'z', 'Z'])),
        18 if o.flags && o.depth > 0 => {
            let (a, r) = gen_flag_lists(rng);
            Node::SetFlags(a, r)
        }
        _ => gen_class(rng, o.fancy),
    }
}

fn gen_piece(rng: &mut Rng, o: GenOpts) -> Node {
    let a = gen_atom(rng, o);
    if !rng.chance(2, 5) {
        return a;
    }
    let (min, max) = match rng.below(8) {
        0 => (0, None),
        1 | 2 => (1, None),
        3 => (0, Some(1)),
        4 => {
            let k = rng.range(1, 4) as u32;
            (k, Some(k))
        }
        5 => (rng.range(0, 2) as u32, Some(rng.range(2, 4) as u32)),
        6 => (rng.range(1, 3) as u32, None),
        _ => (0, Some(rng.range(0, 3) as u32)),
    };
    if matches!(a, Node::SetFlags(..)) {
        return a;
    }
    if matches!(a, Node::Assert(_)) {
        // quantified assertions: bounded only
        return Node::Rep(Box::new(a), min.min(1), Some(1), true);
    }
    if nullable(&a) && max.is_none() {
        return Node::Rep(Box::new(a), min, Some(min + 1), rng.chance(4, 5));
    }
    Node::Rep(Box::new(a), min, max, rng.chance(4, 5))
}

fn gen_cat(rng: &mut Rng, o: GenOpts) -> Node {
    let n = rng.range(1, 4);
    let v: Vec<Node> = (0..n).map(|_| gen_piece(rng, o)).collect();
    if v.len() == 1 {
        v.into_iter().next().unwrap()
    } else {
        Node::Cat(v)
    }
}

pub fn gen_alt(rng: &mut Rng, o: GenOpts) -> Node {
    if rng.chance(1, 4) {
        let n = rng.range(2, 3);
        Node::Alt(
            (0..n)
                .map(|_| {
                    if rng.chance(1, 15) {
                        Node::Empty
                    } else {
                        gen_cat(rng, o)
                    }
                })
                .collect(),
        )
    } else {
        gen_cat(rng, o)
    }
}

/// A random string that the node is likely to match.
pub fn sample(n: &Node, rng: &mut Rng, out: &mut String) {
    match n {
        Node::Empty | Node::SetFlags(..) => {}
        Node::Lit(c) => {
            if rng.chance(1, 8) {
                out.push(*rng.pick(&equivs(*c)))
            } else {
                out.push(*c)
            }
        }
        Node::Quote(s) => out.push_str(s),
        Node::Dot => out.push(rng.pick_char("axZ0-é\n ")),
        Node::Perl(_) | Node::Prop(..) | Node::Class(..) => {
            // rejection sampling over the alphabet
            for _ in 0..40 {
                let c = if rng.chance(1, 2) {
                    rng.pick_char("abcxyzABX0129_-. @")
                } else {
                    rng.pick_char(ALPHABET)
                };
                let ok = match n {
                    Node::Perl(k) => perl(*k, c) != k.is_ascii_uppercase(),
                    Node::Prop(p, neg) => prop_matches(p, c) != *neg,
                    Node::Class(items, neg) => {
                        items.iter().any(|it| item_matches(it, false, c)) != *neg
                    }
                    _ => unreachable!(),
                };
                if ok {
                    out.push(c);
                    return;
                }
            }
        }
        Node::Assert(a) => match a {
            '$' | 'Z' if rng.chance(1, 4) => out.push('\n'),
            'b' if rng.chance(1, 4) => out.push(' '),
            _ => {}
        },
        Node::Cat(v) => {
            for x in v {
                sample(x, rng, out)
            }
        }
        Node::Alt(v) => {
            let i = rng.below(v.len());
            sample(&v[i], rng, out)
        }
        Node::Rep(x, min, max, _) => {
            let hi = max.unwrap_or(*min + 3).min(*min + 4).max(*min);
            let k = rng.range(*min as usize, hi as usize);
            if let (Node::Quote(s), true) = (x.as_ref(), true) {
                let mut cs: Vec<char> = s.chars().collect();
                let last = cs.pop().unwrap();
                out.extend(cs);
                for _ in 0..k {
                    out.push(last);
                }
                return;
            }
            for _ in 0..k {
                sample(x, rng, out)
            }
        }
        Node::Group(_, _, _, x) => sample(x, rng, out),
    }
}

/// Content likely to contain matches, near misses and noise.
pub fn gen_content(nodes: &[&Node], rng: &mut Rng, pieces: usize, wide: bool) -> String {
    let mut s = String::new();
    for _ in 0..pieces {
        match rng.below(10) {
            0..=4 if !nodes.is_empty() => {
                let n = nodes[rng.below(nodes.len())];
                let mut t = String::new();
                sample(n, rng, &mut t);
                if rng.chance(1, 5) && !t.is_empty() {
                    // near miss: drop / replace / swap a char
                    let mut cs: Vec<char> = t.chars().collect();
                    let i = rng.below(cs.len());
                    match rng.below(3) {
                        0 => {
                            cs.remove(i);
                        }
                        1 => cs[i] = rng.pick_char("abX0_- é"),
                        _ => cs.insert(i, rng.pick_char("abX0_- é")),
                    }
                    t = cs.into_iter().collect();
                }
                s.push_str(&t);
            }
            5..=7 => {
                for _ in 0..rng.range(1, 3) {
                    s.push(rng.pick_char(if wide { ALPHABET } else { "abcxAB012 _-.,@é€😏" }));
                }
            }
            _ => s.push_str(rng.word(&[" ", " ", "\n", "", "é", "😏", "-", "_", "a", "0"])),
        }
        if s.chars().count() > 60 {
            break;
        }
    }
    s
}
