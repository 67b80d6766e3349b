//! An independent parser of the dialect: decides for any string whether it is a pattern (and why
//! not), and what it means. Where the dialect's documentation is silent it abstains.
use crate::rx::{nullable, Item, Node, ASCII_CLASSES, PROP_NAMES};

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Syntax,
    Depth,
    /// not decided here
    Open(&'static str),
}

pub struct Parsed {
    pub node: Node,
    /// a repetition count over the limit
    pub quant: bool,
    /// well-formed, but not meaningful (reversed ranges, repeated group names, ...)
    pub invalid: bool,
    /// a repetition of something that can be empty: which text it takes is not decided here
    pub nullable_rep: bool,
    /// the x flag occurs
    pub verbose: bool,
}

struct P {
    c: Vec<char>,
    at: usize,
    depth: usize,
    names: Vec<String>,
    quant: bool,
    invalid: bool,
    nullable_rep: bool,
    verbose: bool,
}

const MAX_DEPTH: usize = 50;
const MAX_COUNT: u64 = 3000;

pub fn parse(s: &str) -> Result<Parsed, Bad> {
    let mut p = P {
        c: s.chars().collect(),
        at: 0,
        depth: 0,
        names: vec![],
        quant: false,
        invalid: false,
        nullable_rep: false,
        verbose: false,
    };
    let node = p.alternatives()?;
    if p.at != p.c.len() {
        return Err(Bad::Syntax);
    }
    Ok(Parsed {
        node,
        quant: p.quant,
        invalid: p.invalid,
        nullable_rep: p.nullable_rep,
        verbose: p.verbose,
    })
}

impl P {
    fn peek(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(i, x)| self.c.get(self.at + i) == Some(&x))
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.peek(s) {
            self.at += s.chars().count();
            true
        } else {
            false
        }
    }

    fn alternatives(&mut self) -> Result<Node, Bad> {
        let mut alts = vec![self.sequence()?];
        while self.eat("|") {
            alts.push(self.sequence()?);
        }
        Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Node::Alt(alts) })
    }

    fn sequence(&mut self) -> Result<Node, Bad> {
        let mut v = vec![];
        while self.at < self.c.len() && !self.peek("|") && !self.peek(")") {
            let a = self.atom()?;
            v.push(self.quantified(a)?);
        }
        Ok(match v.len() {
            0 => Node::Empty,
            1 => v.pop().unwrap(),
            _ => Node::Cat(v),
        })
    }

    fn number(&mut self) -> Option<u64> {
        let s = self.at;
        while self.at < self.c.len() && self.c[self.at].is_ascii_digit() {
            self.at += 1;
        }
        let t: String = self.c[s..self.at].iter().collect();
        // a number that does not fit is not a number
        t.parse::<u32>().ok().map(|x| x as u64)
    }

    fn counted(&mut self) -> Option<(u64, Option<u64>)> {
        let save = self.at;
        let r = (|| {
            if !self.eat("{") {
                return None;
            }
            let a = self.number()?;
            if self.eat("}") {
                return Some((a, Some(a)));
            }
            if !self.eat(",") {
                return None;
            }
            if self.eat("}") {
                return Some((a, None));
            }
            let b = self.number()?;
            if self.eat("}") {
                return Some((a, Some(b)));
            }
            None
        })();
        if r.is_none() {
            self.at = save;
        }
        r
    }

    fn quantified(&mut self, a: Node) -> Result<Node, Bad> {
        let (min, max) = if self.eat("*") {
            (0, None)
        } else if self.eat("+") {
            (1, None)
        } else if self.eat("?") {
            (0, Some(1))
        } else if let Some(r) = self.counted() {
            r
        } else {
            return Ok(a);
        };
        let greedy = !self.eat("?");
        if min > MAX_COUNT || max.unwrap_or(0) > MAX_COUNT {
            self.quant = true;
        } else if max.is_some_and(|m| m < min) {
            self.invalid = true;
        }
        match &a {
            Node::SetFlags(..) => self.invalid = true,
            Node::Quote(s) if s.is_empty() => return Err(Bad::Open("a quantifier on an empty quote")),
            // only the last character is repeated
            Node::Quote(_) => {}
            n => self.nullable_rep |= nullable(n),
        }
        let clamp = |x: u64| x.min(MAX_COUNT) as u32;
        Ok(Node::Rep(Box::new(a), clamp(min), max.map(clamp), greedy))
    }

    fn flags(&mut self) -> (Vec<char>, Vec<char>) {
        let mut add = vec![];
        let mut rem = vec![];
        while self.at < self.c.len() && "imsx".contains(self.c[self.at]) {
            add.push(self.c[self.at]);
            self.at += 1;
        }
        if self.eat("-") {
            while self.at < self.c.len() && "imsx".contains(self.c[self.at]) {
                rem.push(self.c[self.at]);
                self.at += 1;
            }
        }
        if add.contains(&'x') {
            self.verbose = true;
        }
        (add, rem)
    }

    fn body(&mut self) -> Result<Node, Bad> {
        if self.depth >= MAX_DEPTH {
            return Err(Bad::Depth);
        }
        let n = self.alternatives()?;
        if !self.eat(")") {
            return Err(Bad::Syntax);
        }
        Ok(n)
    }

    fn group(&mut self) -> Result<Node, Bad> {
        // inline flags do not nest
        let save = self.at;
        if self.eat("(?") {
            let (add, rem) = self.flags();
            if self.eat(")") {
                if add.is_empty() && rem.is_empty() {
                    self.invalid = true;
                }
                return Ok(Node::SetFlags(add, rem));
            }
        }
        self.at = save;
        self.depth += 1;
        let r = if self.eat("(?") {
            let (add, rem) = self.flags();
            if self.eat(":") {
                Node::Group(1, add, rem, Box::new(self.body()?))
            } else if add.is_empty() && rem.is_empty() && self.c[self.at - 1] == '?' {
                let close = if self.eat("<") || self.eat("P<") {
                    ">"
                } else if self.eat("'") {
                    "'"
                } else {
                    return Err(Bad::Syntax);
                };
                let mut name = String::new();
                while self.at < self.c.len() && (self.c[self.at].is_ascii_alphanumeric() || self.c[self.at] == '_') {
                    name.push(self.c[self.at]);
                    self.at += 1;
                }
                if name.is_empty() || name.as_bytes()[0].is_ascii_digit() || !self.eat(close) {
                    return Err(Bad::Syntax);
                }
                if self.names.contains(&name) {
                    self.invalid = true;
                }
                self.names.push(name);
                Node::Group(3, vec![], vec![], Box::new(self.body()?))
            } else {
                return Err(Bad::Syntax);
            }
        } else {
            self.eat("(");
            Node::Group(0, vec![], vec![], Box::new(self.body()?))
        };
        self.depth -= 1;
        Ok(r)
    }

    /// After a backslash: one character.
    fn escaped(&mut self) -> Result<char, Bad> {
        let Some(&c) = self.c.get(self.at) else {
            return Err(Bad::Syntax);
        };
        self.at += 1;
        Ok(match c {
            'a' => '\u{7}',
            'b' => '\u{8}',
            'e' => '\u{1b}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'v' => '\u{b}',
            'c' => {
                let Some(&l) = self.c.get(self.at) else {
                    return Err(Bad::Syntax);
                };
                if !l.is_ascii_alphabetic() {
                    return Err(Bad::Syntax);
                }
                self.at += 1;
                char::from_u32(l.to_ascii_lowercase() as u32 - 'a' as u32 + 1).unwrap()
            }
            'x' => {
                if self.peek("{") && self.c[self.at..].contains(&'}') {
                    let end = self.at + self.c[self.at..].iter().position(|x| *x == '}').unwrap();
                    let h: String = self.c[self.at + 1..end].iter().collect();
                    self.at = end + 1;
                    if h.is_empty() || h.starts_with('+') {
                        return if h.is_empty() { Err(Bad::Syntax) } else { Err(Bad::Open("\\x{+..}")) };
                    }
                    if !h.chars().all(|c| c.is_ascii_hexdigit()) {
                        return Err(Bad::Syntax);
                    }
                    u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or(Bad::Syntax)?
                } else {
                    let mut v = 0;
                    let mut n = 0;
                    while n < 2 && self.c.get(self.at).is_some_and(|c| c.is_ascii_hexdigit()) {
                        v = v * 16 + self.c[self.at].to_digit(16).unwrap();
                        self.at += 1;
                        n += 1;
                    }
                    char::from_u32(v).unwrap()
                }
            }
            c if "0123456789gklopuzABCEGKLNPQRUXZ".contains(c) => return Err(Bad::Syntax),
            c => c,
        })
    }

    fn prop(&mut self) -> Result<Option<(&'static str, bool)>, Bad> {
        if !self.peek("\\p") && !self.peek("\\P") {
            return Ok(None);
        }
        let neg = self.c[self.at + 1] == 'P';
        self.at += 2;
        if !self.eat("{") {
            return Err(Bad::Syntax);
        }
        let mut name = String::new();
        while self.at < self.c.len() && (self.c[self.at].is_ascii_alphabetic() || self.c[self.at] == '_') {
            name.push(self.c[self.at]);
            self.at += 1;
        }
        if !self.eat("}") {
            return Err(Bad::Syntax);
        }
        match PROP_NAMES.iter().find(|x| **x == name) {
            Some(n) => Ok(Some((n, neg))),
            None if name.is_empty() || name.contains("Qq") => Err(Bad::Syntax),
            None => Err(Bad::Open("a property name outside the table")),
        }
    }

    fn quote(&mut self) -> Result<Option<String>, Bad> {
        if !self.peek("\\Q") {
            return Ok(None);
        }
        let rest: String = self.c[self.at + 2..].iter().collect();
        match rest.find("\\E") {
            None => Err(Bad::Syntax),
            Some(i) => {
                let s = rest[..i].to_string();
                self.at += 2 + s.chars().count() + 2;
                Ok(Some(s))
            }
        }
    }

    fn perl(&mut self) -> Option<char> {
        if self.peek("\\") {
            if let Some(&k) = self.c.get(self.at + 1) {
                if "dswDSWhHvV".contains(k) {
                    self.at += 2;
                    return Some(k);
                }
            }
        }
        None
    }

    fn atom(&mut self) -> Result<Node, Bad> {
        if let Some(s) = self.quote()? {
            return Ok(Node::Quote(s));
        }
        if self.peek("(") {
            return self.group();
        }
        for (t, a) in [("\\b", 'b'), ("\\B", 'B'), ("^", '^'), ("$", '$'), ("\\A", 'A'), ("\\z", 'z'), ("\\Z", 'Z')] {
            if self.eat(t) {
                return Ok(Node::Assert(a));
            }
        }
        if self.eat(".") {
            return Ok(Node::Dot);
        }
        if let Some(k) = self.perl() {
            return Ok(Node::Perl(k));
        }
        if let Some((n, neg)) = self.prop()? {
            return Ok(Node::Prop(n, neg));
        }
        if self.peek("[") {
            return self.class();
        }
        if self.eat("\\") {
            return Ok(Node::Lit(self.escaped()?));
        }
        let c = self.c[self.at];
        if "|[().+?*^$".contains(c) {
            return Err(Bad::Syntax);
        }
        self.at += 1;
        Ok(Node::Lit(c))
    }

    fn class(&mut self) -> Result<Node, Bad> {
        self.eat("[");
        let neg = self.eat("^");
        let mut items = vec![];
        if self.eat("]") {
            items.push(Item::Ch(']'));
        }
        loop {
            if self.at >= self.c.len() {
                return Err(Bad::Syntax);
            }
            if self.eat("]") {
                break;
            }
            if let Some(k) = self.perl() {
                items.push(Item::Perl(k));
                continue;
            }
            if let Some(s) = self.quote()? {
                items.extend(s.chars().map(Item::Ch));
                continue;
            }
            if self.peek("[:") {
                let save = self.at;
                self.eat("[:");
                let n = self.eat("^");
                let mut hit = None;
                for a in ASCII_CLASSES {
                    if self.peek(&format!("{a}:]")) {
                        hit = Some(*a);
                    }
                }
                if let Some(a) = hit {
                    self.eat(&format!("{a}:]"));
                    items.push(Item::Ascii(a, n));
                    continue;
                }
                self.at = save;
            }
            if let Some((n, neg)) = self.prop()? {
                items.push(Item::Prop(n, neg));
                continue;
            }
            let a = self.class_lit()?;
            if self.peek("-") && self.c.get(self.at + 1).is_some_and(|c| *c != ']') {
                if self.c[self.at + 1] == '\\' && self.c.get(self.at + 2).is_some_and(|c| !"\\-]^.+*?nrtaefx".contains(*c)) {
                    return Err(Bad::Open("a class as the end of a range"));
                }
                self.at += 1;
                let b = self.class_lit()?;
                if b < a {
                    self.invalid = true;
                    items.push(Item::Ch(a));
                } else {
                    items.push(Item::Range(a, b));
                }
                continue;
            }
            items.push(Item::Ch(a));
        }
        if items.is_empty() {
            return Err(Bad::Syntax);
        }
        Ok(Node::Class(items, neg))
    }

    fn class_lit(&mut self) -> Result<char, Bad> {
        if self.eat("\\") {
            self.escaped()
        } else {
            self.at += 1;
            Ok(self.c[self.at - 1])
        }
    }
}
