//! P02: what a single pattern element means over all of Unicode, not only over the generated alphabet.
//! Trusted for this: the Unicode tables of regex-syntax (which characters have a property, what folds to what).
use crate::rx::{ascii_class, perl, ASCII_CLASSES};
use crate::util::*;
use dd_sds::{RegexRuleConfig, Scanner};
use regex_syntax::hir::{Class, HirKind};

/// Every property name of the dialect.
const NAMES: &[&str] = &[
    "C", "Cc", "Cf", "Cn", "Co", "L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Pe",
    "Pf", "Pi", "Po", "Ps", "S", "Sc", "Sk", "Sm", "So", "Z", "Zl", "Zp", "Zs", "Adlam", "Ahom", "Anatolian_Hieroglyphs", "Arabic",
    "Armenian", "Avestan", "Balinese", "Bamum", "Bassa_Vah", "Batak", "Bengali", "Bhaiksuki", "Bopomofo", "Brahmi", "Braille", "Buginese",
    "Buhid", "Canadian_Aboriginal", "Carian", "Caucasian_Albanian", "Chakma", "Cham", "Cherokee", "Chorasmian", "Common", "Coptic",
    "Cuneiform", "Cypriot", "Cypro_Minoan", "Cyrillic", "Deseret", "Devanagari", "Dives_Akuru", "Dogra", "Duployan",
    "Egyptian_Hieroglyphs", "Elbasan", "Elymaic", "Ethiopic", "Georgian", "Glagolitic", "Gothic", "Grantha", "Greek", "Gujarati",
    "Gunjala_Gondi", "Gurmukhi", "Han", "Hangul", "Hanifi_Rohingya", "Hanunoo", "Hatran", "Hebrew", "Hiragana", "Imperial_Aramaic",
    "Inherited", "Inscriptional_Pahlavi", "Inscriptional_Parthian", "Javanese", "Kaithi", "Kannada", "Katakana", "Kayah_Li",
    "Kharoshthi", "Khitan_Small_Script", "Khmer", "Khojki", "Khudawadi", "Lao", "Latin", "Lepcha", "Limbu", "Linear_A", "Linear_B", "Lisu",
    "Lycian", "Lydian", "Mahajani", "Makasar", "Malayalam", "Mandaic", "Manichaean", "Marchen", "Masaram_Gondi", "Medefaidrin",
    "Meetei_Mayek", "Mende_Kikakui", "Meroitic_Cursive", "Meroitic_Hieroglyphs", "Miao", "Modi", "Mongolian", "Mro", "Multani", "Myanmar",
    "Nabataean", "Nandinagari", "New_Tai_Lue", "Newa", "Nko", "Nushu", "Ogham", "Ol_Chiki", "Old_Hungarian", "Old_Italic",
    "Old_North_Arabian", "Old_Permic", "Old_Persian", "Old_Sogdian", "Old_South_Arabian", "Old_Turkic", "Old_Uyghur", "Oriya", "Osage",
    "Osmanya", "Pahawh_Hmong", "Palmyrene", "Pau_Cin_Hau", "Phags_Pa", "Phoenician", "Psalter_Pahlavi", "Rejang", "Runic", "Samaritan",
    "Saurashtra", "Sharada", "Shavian", "Siddham", "SignWriting", "Sinhala", "Sogdian", "Sora_Sompeng", "Soyombo", "Sundanese",
    "Syloti_Nagri", "Syriac", "Tagalog", "Tagbanwa", "Tai_Le", "Tai_Tham", "Tai_Viet", "Takri", "Tamil", "Tangsa", "Tangut", "Telugu",
    "Thaana", "Thai", "Tibetan", "Tifinagh", "Tirhuta", "Toto", "Ugaritic", "Vai", "Vithkuqi", "Wancho", "Warang_Citi", "Yezidi", "Yi",
    "Zanabazar_Square",
];

/// The ranges that regex-syntax gives a single-character pattern.
fn ranges(pattern: &str) -> Option<Vec<(u32, u32)>> {
    let hir = regex_syntax::parse(pattern).ok()?;
    match hir.kind() {
        HirKind::Class(Class::Unicode(c)) => Some(c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect()),
        HirKind::Class(Class::Bytes(c)) => Some(c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect()),
        HirKind::Literal(l) => {
            let s = std::str::from_utf8(&l.0).ok()?;
            let c = s.chars().next()? as u32;
            Some(vec![(c, c)])
        }
        _ => None,
    }
}
fn within(r: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    r.iter().any(|(a, b)| *a <= c && c <= *b)
}

/// Which of the characters the pattern matches, observed with one scan (each match has to be one character).
fn matched(pattern: &str, chars: &[char]) -> Result<Vec<bool>, (String, String)> {
    let rules = [RegexRuleConfig::new(pattern).build()];
    let s = match guarded(|| Scanner::builder(&rules).build()) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return Err(("rejected".into(), format!("a pattern of the dialect was rejected with {e:?}: {pattern:?}"))),
        Err(p) => return Err((format!("panic:{}", p.loc), format!("building {pattern:?} panicked: {}", p.msg))),
    };
    let mut text: String = chars.iter().collect();
    let whole = text.clone();
    let ms = guarded(|| s.scan(&mut text, vec![]))
        .map_err(|p| (format!("panic:{}", p.loc), format!("scanning for {pattern:?} panicked: {}", p.msg)))?;
    let mut at: std::collections::BTreeMap<usize, usize> = Default::default();
    let mut off = 0;
    for (i, c) in chars.iter().enumerate() {
        at.insert(off, i);
        off += c.len_utf8();
    }
    let mut got = vec![false; chars.len()];
    for m in &ms {
        let i = at.get(&m.start_index).copied();
        match i {
            Some(i) if m.end_index_exclusive == m.start_index + chars[i].len_utf8() => got[i] = true,
            _ => {
                return Err((
                    "range".into(),
                    format!("{pattern:?} reported {}..{} ({:?})", m.start_index, m.end_index_exclusive, whole.get(m.start_index..m.end_index_exclusive)),
                ))
            }
        }
    }
    Ok(got)
}

fn compare(case: &mut Case, pattern: &str, chars: &[char], want: impl Fn(char) -> bool) -> Option<Outcome> {
    match matched(pattern, chars) {
        Err((s, d)) => Some(Outcome::Violated(s, d)),
        Ok(got) => {
            for (c, g) in chars.iter().zip(got) {
                if g != want(*c) {
                    return Some(Outcome::Violated(
                        "meaning of an element".into(),
                        format!("pattern {pattern:?} and the character {c:?} (U+{:04X}): matched {g}, expected {}", *c as u32, !g),
                    ));
                }
            }
            case.tagn("element x character pairs", chars.len() as u64);
            None
        }
    }
}

fn add(v: &mut Vec<char>, c: u32) {
    if let Some(c) = char::from_u32(c) {
        v.push(c)
    }
}

pub fn run(ctx: &Ctx) {
    // every property name, in every spelling, at the edges of its ranges and at random characters
    let all = PhaseOpts {
        cases: NAMES.len() as u64,
        threads: 8,
        max_s: 200.0,
    };
    let tries = if ctx.tier == Tier::Quick { 150 } else { 1500 };
    ctx.phase("properties", all, |case| {
        let name = NAMES[case.n as usize];
        let Some(r) = ranges(&format!("\\p{{{name}}}")) else { return Outcome::Abstain("a name the engine's tables lack") };
        let mut chars = vec![];
        let edges: Vec<(u32, u32)> = if r.len() <= 40 { r.clone() } else { (0..40).map(|_| *case.rng.pick(&r)).collect() };
        for (a, b) in edges {
            for c in [a.saturating_sub(1), a, b, b + 1, a + (b - a) / 2] {
                add(&mut chars, c);
            }
        }
        for _ in 0..tries {
            let top = *case.rng.pick(&[0x80, 0x800, 0x3100, 0x10000, 0x20000, 0x110000]);
            add(&mut chars, case.rng.below(top) as u32);
        }
        let spellings: [(String, bool); 8] = [
            (format!("\\p{{{name}}}"), false),
            (format!("\\P{{{name}}}"), true),
            (format!("[\\p{{{name}}}]"), false),
            (format!("[^\\p{{{name}}}]"), true),
            (format!("[\\P{{{name}}}]"), true),
            (format!("[^\\P{{{name}}}]"), false),
            (format!("(?x) \\p{{{name}}} "), false),
            (format!("(?:\\p{{{name}}})"), false),
        ];
        for (p, neg) in &spellings {
            if let Some(o) = compare(case, p, &chars, |c| within(&r, c) != *neg) {
                return o;
            }
        }
        case.tag("property names");
        Outcome::Held(hash_str(name), true)
    });
    // class escapes, POSIX classes and the dot over blocks of characters
    let mut elements: Vec<(String, Box<dyn Fn(char) -> bool + Sync>)> = vec![
        (".".into(), Box::new(|c| c != '\n')),
        ("(?s).".into(), Box::new(|_| true)),
        ("(?-s).".into(), Box::new(|c| c != '\n')),
        ("[^a]".into(), Box::new(|c| c != 'a')),
        ("[^\\n]".into(), Box::new(|c| c != '\n')),
        ("[\\x{80}-\\x{10ffff}]".into(), Box::new(|c| c as u32 >= 0x80)),
    ];
    for k in "dswhv".chars() {
        let up = k.to_ascii_uppercase();
        for (p, neg) in [
            (format!("\\{k}"), false),
            (format!("\\{up}"), true),
            (format!("[\\{k}]"), false),
            (format!("[^\\{k}]"), true),
            (format!("[\\{up}]"), true),
            (format!("[^\\{up}]"), false),
            (format!("(?i)\\{k}"), false),
        ] {
            // folding adds the Kelvin sign and the long s to the letters
            let fold = p.starts_with("(?i)") && k == 'w';
            elements.push((p, Box::new(move |c| (perl(k, c) || (fold && matches!(c, '\u{212a}' | '\u{17f}'))) != neg)));
        }
    }
    for n in ASCII_CLASSES {
        for (p, neg) in [
            (format!("[[:{n}:]]"), false),
            (format!("[[:^{n}:]]"), true),
            (format!("[^[:{n}:]]"), true),
            (format!("[^[:^{n}:]]"), false),
        ] {
            elements.push((p, Box::new(move |c| ascii_class(n, c) != neg)));
        }
    }
    let fixed = 0x3200 / 512;
    let per = if ctx.tier == Tier::Quick { fixed + 2 } else { fixed + 40 };
    ctx.phase(
        "classes",
        PhaseOpts {
            cases: (elements.len() * per) as u64,
            threads: 8,
            max_s: 300.0,
        },
        |case| {
            let (p, want) = &elements[case.n as usize / per];
            let b = case.n as usize % per;
            let start = if b < fixed { b * 512 } else { case.rng.below(0x110000 - 512) };
            let chars: Vec<char> = (start..start + 512).filter_map(|c| char::from_u32(c as u32)).collect();
            if chars.is_empty() {
                return Outcome::Held(case.n, false);
            }
            if let Some(o) = compare(case, p, &chars, want) {
                return o;
            }
            Outcome::Held(hash_str(&format!("{p} {start}")), true)
        },
    );
    // any character as a literal, in every spelling
    ctx.phase("literals", super::scan::opts(ctx, 3_000, 20.0), |case| {
        let top = *case.rng.pick(&[0x80, 0x80, 0x250, 0x800, 0x3100, 0x10000, 0x20000, 0x110000]);
        let Some(c) = char::from_u32(case.rng.below(top) as u32) else { return Outcome::Held(0, false) };
        let hex = format!("{:x}", c as u32);
        let mut chars: Vec<char> = vec![];
        for d in 0..9u32 {
            add(&mut chars, (c as u32 + d).wrapping_sub(4));
        }
        for x in "aAkKsS019 _-.\n".chars() {
            chars.push(x);
        }
        chars.extend(c.to_lowercase());
        chars.extend(c.to_uppercase());
        for _ in 0..20 {
            add(&mut chars, case.rng.below(top) as u32);
        }
        let Some(folded) = ranges(&format!("(?i)\\x{{{hex}}}")) else { return Outcome::Abstain("no table") };
        for (a, b) in &folded {
            add(&mut chars, *a);
            add(&mut chars, *b);
        }
        let mut spell = vec![format!("\\x{{{hex}}}"), format!("\\x{{00{hex}}}"), format!("\\x{{{}}}", hex.to_uppercase()), format!("[\\x{{{hex}}}]")];
        if (c as u32) < 256 {
            spell.push(format!("\\x{:02x}", c as u32));
            spell.push(format!("[\\x{:02X}]", c as u32));
        }
        if c.is_alphanumeric() || !c.is_ascii() {
            spell.push(c.to_string());
            spell.push(format!("[{c}]"));
            spell.push(format!("[{c}-{c}]"));
            spell.push(format!("\\Q{c}\\E"));
        } else if !c.is_ascii_control() {
            spell.push(format!("\\{c}"));
            spell.push(format!("[\\{c}]"));
            spell.push(format!("\\Q{c}\\E"));
        }
        for s in &spell {
            for (p, i, neg) in [
                (s.clone(), false, false),
                (format!("(?i){s}"), true, false),
                (format!("(?i:{s})"), true, false),
                (format!("(?i)(?-i){s}"), false, false),
                (format!("(?:{s}){{1}}"), false, false),
                (format!("[^{}", s.strip_prefix('[').unwrap_or("")), false, true),
            ] {
                if neg && !s.starts_with('[') {
                    continue;
                }
                if let Some(o) = compare(case, &p, &chars, |x| (if i { within(&folded, x) } else { x == c }) != neg) {
                    return o;
                }
            }
            case.tag("literal spellings");
        }
        // under x, spelled-out white space still counts
        let x = format!("(?x) \\x{{{hex}}} ");
        if let Some(o) = compare(case, &x, &chars, |y| y == c) {
            return o;
        }
        for x in [format!("(?x) \\Q{c}\\E "), format!("(?x)[\\Q{c}\\E]")] {
            if let Some(o) = compare(case, &x, &chars, |y| y == c) {
                return o;
            }
        }
        if !c.is_ascii() || c.is_whitespace() || c.is_ascii_punctuation() {
            if let Some(o) = compare(case, &format!("(?x) \\{c} "), &chars, |y| y == c) {
                return o;
            }
        }
        let x = format!("(?x)[\\x{{{hex}}}]");
        if let Some(o) = compare(case, &x, &chars, |y| y == c) {
            return o;
        }
        Outcome::Held(c as u64, true)
    });
}

/// Named escapes and control letters.
fn named(c: char) -> Vec<String> {
    let mut v = vec![];
    if let 1..=26 = c as u32 {
        let l = (b'a' + c as u8 - 1) as char;
        v.push(format!("\\c{l}"));
        v.push(format!("\\c{}", l.to_ascii_uppercase()));
    }
    match c {
        '\u{7}' => v.push("\\a".into()),
        '\u{1b}' => v.push("\\e".into()),
        '\u{c}' => v.push("\\f".into()),
        '\n' => v.push("\\n".into()),
        '\r' => v.push("\\r".into()),
        '\t' => v.push("\\t".into()),
        '\0' => v.push("\\x".into()),
        'i' | 'j' | 'm' | 'q' | 'y' | 'F' | 'I' | 'J' | 'M' | 'O' | 'T' | 'Y' => v.push(format!("\\{c}")),
        _ => {}
    }
    let both: Vec<String> = v.iter().map(|s| format!("[{s}]")).collect();
    v.extend(both);
    if c == '\u{8}' {
        v.push("[\\b]".into());
    }
    if c.is_ascii_graphic() && !"|[().+?*^$\\".contains(c) {
        v.push(c.to_string());
    }
    if c.is_ascii_graphic() && !"]^\\".contains(c) {
        v.push(format!("[{c}]"));
        v.push(format!("[{c}{c}]"));
        v.push(format!("[{c}{c}{c}]"));
    }
    if c == ']' {
        v.push("[]]".into());
        v.push("[]]{1}".into());
    }
    if (c as u32) < 16 {
        v.push(format!("[\\x{:x}]", c as u32));
        v.push(format!("(?:\\x{:x})", c as u32));
    }
    v
}

type Set = Box<dyn Fn(char) -> bool>;
/// One item of a bracketed class: spelling and meaning.
fn class_item(rng: &mut Rng, first: bool) -> (String, Set) {
    let any = |rng: &mut Rng| loop {
        let top = *rng.pick(&[0x80, 0x80, 0x80, 0x250, 0x3100, 0x20000]);
        if let Some(c) = char::from_u32(rng.below(top) as u32) {
            return c;
        }
    };
    // a character inside a class, outside of quotes
    let spell = |rng: &mut Rng, c: char| -> String {
        let safe = c.is_alphanumeric() || !c.is_ascii();
        match rng.below(4) {
            0 if safe => c.to_string(),
            1 if !safe && c.is_ascii_punctuation() => format!("\\{c}"),
            2 if (c as u32) < 256 => format!("\\x{:02x}", c as u32),
            _ => format!("\\x{{{:x}}}", c as u32),
        }
    };
    match rng.below(9) {
        0 | 1 => {
            let c = any(rng);
            (spell(rng, c), Box::new(move |x| x == c))
        }
        2 | 3 => {
            let (mut a, mut b) = (any(rng), any(rng));
            if rng.chance(1, 2) {
                b = char::from_u32(a as u32 + rng.below(9) as u32).unwrap_or(a);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            (format!("{}-{}", spell(rng, a), spell(rng, b)), Box::new(move |x| a <= x && x <= b))
        }
        4 | 5 => {
            let n = rng.range(1, 5);
            let mut cs: Vec<char> = vec![];
            for _ in 0..n {
                let c = if rng.chance(1, 3) { *rng.pick(&['-', ']', '[', '^', '&', '~', ':', 'a', 'z', '0', '9', ' ', '#']) } else { any(rng) };
                if c != 'E' || cs.last() != Some(&'\\') {
                    cs.push(c);
                }
            }
            if cs.is_empty() {
                cs.push('-');
            }
            let s: String = cs.iter().collect();
            (format!("\\Q{s}\\E"), Box::new(move |x| cs.contains(&x)))
        }
        6 => {
            let k = *rng.pick(&['d', 's', 'w', 'h', 'v']);
            let neg = rng.chance(1, 3);
            let up = if neg { k.to_ascii_uppercase() } else { k };
            (format!("\\{up}"), Box::new(move |c| perl(k, c) != neg))
        }
        7 => {
            let n = *rng.pick(ASCII_CLASSES);
            let neg = rng.chance(1, 3);
            (format!("[:{}{n}:]", if neg { "^" } else { "" }), Box::new(move |c| ascii_class(n, c) != neg))
        }
        _ if first => ("]".into(), Box::new(|c| c == ']')),
        _ => {
            let n = *rng.pick(NAMES);
            let neg = rng.chance(1, 3);
            match ranges(&format!("\\p{{{n}}}")) {
                Some(r) => (format!("\\{}{{{n}}}", if neg { 'P' } else { 'p' }), Box::new(move |c| within(&r, c) != neg)),
                None => ("\\d".into(), Box::new(|c| c.is_ascii_digit())),
            }
        }
    }
}

pub fn run_more(ctx: &Ctx) {
    ctx.phase("named", PhaseOpts { cases: 128, threads: 8, max_s: 60.0 }, |case| {
        let c = char::from_u32(case.n as u32).unwrap();
        let mut chars: Vec<char> = (0..0x100).filter_map(char::from_u32).collect();
        chars.extend(['\u{17f}', '\u{212a}']);
        for p in named(c) {
            if let Some(o) = compare(case, &p, &chars, |x| x == c) {
                return o;
            }
            if p.starts_with('[') && p.ends_with(']') {
                if let Some(o) = compare(case, &format!("[^{}", &p[1..]), &chars, |x| x != c) {
                    return o;
                }
            }
            case.tag("named and plain spellings");
        }
        Outcome::Held(case.n, true)
    });
    ctx.phase("unions", super::scan::opts(ctx, 8_000, 15.0), |case| {
        let n = case.rng.range(1, 5);
        let mut text = String::new();
        let mut sets = vec![];
        for i in 0..n {
            let (s, f) = class_item(&mut case.rng, i == 0);
            text.push_str(&s);
            sets.push(f);
        }
        let neg = case.rng.chance(1, 3);
        let x = case.rng.chance(1, 4);
        let p = format!("{}[{}{text}]", if x { "(?x)" } else { "" }, if neg { "^" } else { "" });
        let mut chars: Vec<char> = (0..0x80).filter_map(char::from_u32).collect();
        for c in text.chars() {
            for d in 0..3u32 {
                add(&mut chars, (c as u32 + d).wrapping_sub(1));
            }
        }
        for _ in 0..60 {
            let top = *case.rng.pick(&[0x250, 0x3100, 0x20000, 0x110000]);
            add(&mut chars, case.rng.below(top) as u32);
        }
        // a class that denotes nothing is not judged
        if !chars.iter().any(|c| sets.iter().any(|f| f(*c)) != neg) {
            return Outcome::Abstain("a class without a probe character");
        }
        if let Some(o) = compare(case, &p, &chars, |c| sets.iter().any(|f| f(c)) != neg) {
            return o;
        }
        Outcome::Held(hash_str(&p), true)
    });
    // flag lists: which flags hold inside and after
    ctx.phase("flag lists", super::scan::opts(ctx, 12_000, 12.0), |case| {
        let list = |rng: &mut Rng, max: usize| -> String { (0..rng.below(max + 1)).map(|_| *rng.pick(&['i', 'm', 's', 'x'])).collect() };
        let outer = list(&mut case.rng, 4);
        let (add, rem) = (list(&mut case.rng, 5), list(&mut case.rng, 5));
        let minus = if rem.is_empty() && case.rng.below(4) > 0 { "" } else { "-" };
        if add.is_empty() && minus == "-" && rem.is_empty() {
            return Outcome::Held(0, false);
        }
        let flag = *case.rng.pick(&['i', 'm', 's', 'x']);
        let before = outer.contains(flag);
        let inside = (before || add.contains(flag)) && !rem.contains(flag);
        let fl = format!("{add}{minus}{rem}");
        let probe = match flag {
            'i' => "a",
            'm' => "\\n^b",
            's' => ".",
            _ => "a b",
        };
        // content that the probe matches only with the flag, and only without it
        let (with, without): (&str, Option<&str>) = match flag {
            'i' => ("A", None),
            'm' => ("\nb", None),
            's' => ("\n", None),
            _ => ("ab", Some("a b")),
        };
        let o = if outer.is_empty() { String::new() } else { format!("(?{outer})") };
        // an empty list is only valid as a group prefix
        let mut forms = vec![(format!("{o}(?{fl}:{probe})"), inside)];
        if !fl.is_empty() {
            forms.push((format!("{o}(?{fl}){probe}"), inside));
            forms.push((format!("{o}((?{fl}){probe})"), inside));
            forms.push((format!("{o}(?:(?{fl})(?:zz)?){probe}"), before));
            forms.push((format!("{o}(?{fl}:(?:zz)?){probe}"), before));
            forms.push((format!("{o}(?:zz|(?{fl})qq|{probe})"), inside));
        }
        for (p, on) in forms {
            let rules = [RegexRuleConfig::new(&p).build()];
            let s = match guarded(|| Scanner::builder(&rules).build()) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => return Outcome::Violated("rejected".into(), format!("{p:?} was rejected with {e:?}")),
                Err(e) => return Outcome::Violated(format!("panic:{}", e.loc), format!("building {p:?} panicked: {}", e.msg)),
            };
            let mut hit = |t: &str| {
                let mut t = t.to_string();
                !s.scan(&mut t, vec![]).is_empty()
            };
            if hit(with) != on || without.is_some_and(|w| hit(w) == on) {
                return Outcome::Violated("flags".into(), format!("{p:?} on {with:?}: expected the {flag} flag {}", if on { "on" } else { "off" }));
            }
            case.tag("flag probes");
        }
        Outcome::Held(hash_str(&format!("{outer} {fl} {flag}")), true)
    });
}
