//! The published checksum algorithms, implemented from their definitions.
use dd_sds::SecondaryValidator as V;

fn digits(s: &str) -> Vec<u32> {
    s.chars().filter_map(|c| c.to_digit(10)).collect()
}

pub fn luhn_ok(d: &[u32]) -> bool {
    if d.is_empty() {
        return false;
    }
    let sum: u32 = d
        .iter()
        .rev()
        .enumerate()
        .map(|(i, x)| {
            if i % 2 == 1 {
                let y = x * 2;
                y / 10 + y % 10
            } else {
                *x
            }
        })
        .sum();
    sum % 10 == 0
}

pub fn chinese_ok(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() != 18 || !s.is_ascii() {
        return false;
    }
    let mut sum = 0;
    for (i, c) in cs.iter().enumerate() {
        let v = match c {
            '0'..='9' => *c as u32 - '0' as u32,
            'x' | 'X' if i == 17 => 10,
            _ => return false,
        };
        // ISO 7064 MOD 11-2: weight 2^(17-i) mod 11
        let mut w = 1;
        for _ in 0..17 - i {
            w = w * 2 % 11;
        }
        sum += v * w;
    }
    sum % 11 == 1
}

pub fn crc32(bytes: &[u8]) -> u32 {
    let mut crc = !0u32;
    for b in bytes {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 {
                (crc >> 1) ^ 0xedb88320
            } else {
                crc >> 1
            };
        }
    }
    !crc
}
pub fn b62_6(mut v: u32) -> String {
    let al: Vec<char> = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz".chars().collect();
    let mut out = vec!['0'; 6];
    for i in (0..6).rev() {
        out[i] = al[(v % 62) as usize];
        v /= 62;
    }
    out.into_iter().collect()
}
pub fn github_ok(s: &str) -> bool {
    let Some(p) = s.rfind('_') else { return false };
    let t = &s[p + 1..];
    if !t.bytes().all(|b| b.is_ascii_alphanumeric()) || t.len() <= 6 {
        return false;
    }
    let (body, sum) = t.split_at(t.len() - 6);
    b62_6(crc32(body.as_bytes())) == sum
}

pub fn nhs_ok(d: &[u32]) -> bool {
    if d.len() != 10 {
        return false;
    }
    let sum: u32 = d[..9].iter().enumerate().map(|(i, x)| x * (10 - i as u32)).sum();
    let c = match 11 - sum % 11 {
        11 => 0,
        10 => return false,
        c => c,
    };
    c == d[9]
}
pub fn nir_ok(d: &[u32]) -> bool {
    if d.len() != 15 {
        return false;
    }
    let n = d[..13].iter().fold(0u64, |a, x| a * 10 + *x as u64);
    let k = (d[13] * 10 + d[14]) as u64;
    97 - n % 97 == k
}

/// Country code, BBAN structure (n digits, a upper-case letters, c alphanumeric).
pub const IBANS: &[(&str, &str)] = &[
    ("DE", "18n"),
    ("FR", "10n11c2n"),
    ("GB", "4a14n"),
    ("NL", "4a10n"),
    ("BE", "12n"),
    ("ES", "20n"),
    ("KZ", "3n13c"),
    ("AT", "16n"),
    ("NO", "11n"),
    ("CH", "5n12c"),
    ("PL", "24n"),
    ("MT", "4a5n18c"),
];
pub fn iban_mod97(s: &str) -> u32 {
    let rot: String = format!("{}{}", &s[4..], &s[..4]);
    let mut m = 0u32;
    for c in rot.chars() {
        let v = c.to_digit(36).unwrap();
        m = if v >= 10 { (m * 100 + v) % 97 } else { (m * 10 + v) % 97 };
    }
    m
}
fn bban_ok(b: &str, spec: &str) -> bool {
    let cs: Vec<char> = b.chars().collect();
    let mut at = 0;
    let mut n = 0usize;
    for ch in spec.chars() {
        if let Some(d) = ch.to_digit(10) {
            n = n * 10 + d as usize;
            continue;
        }
        for _ in 0..n {
            let Some(c) = cs.get(at) else { return false };
            let ok = match ch {
                'n' => c.is_ascii_digit(),
                'a' => c.is_ascii_uppercase(),
                _ => c.is_ascii_uppercase() || c.is_ascii_digit(),
            };
            if !ok {
                return false;
            }
            at += 1;
        }
        n = 0;
    }
    at == cs.len()
}
/// None: not decided here (a country or a spelling this table does not cover).
pub fn iban_ok(s: &str) -> Option<bool> {
    let t: String = s.chars().filter(|c| c.is_alphanumeric()).collect();
    if !t.is_ascii() || t.len() < 5 {
        return Some(false);
    }
    let cc = &t[..2];
    if !cc.bytes().all(|b| b.is_ascii_alphabetic()) || !t[2..4].bytes().all(|b| b.is_ascii_digit()) {
        return Some(false);
    }
    // the country in upper case, the rest in either
    if cc.bytes().any(|b| b.is_ascii_lowercase()) {
        return Some(false);
    }
    let t = t.to_ascii_uppercase();
    let cc = &t[..2];
    if iban_mod97(&t) != 1 {
        return Some(false);
    }
    if matches!(&t[2..4], "00" | "01" | "99") {
        return None;
    }
    let spec = IBANS.iter().find(|x| x.0 == cc)?;
    Some(bban_ok(&t[4..], spec.1))
}

pub fn b64url(bytes: &[u8]) -> String {
    let al: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_".chars().collect();
    let mut out = String::new();
    for ch in bytes.chunks(3) {
        let v = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..ch.len() + 1 {
            out.push(al[(v >> (18 - 6 * i)) as usize & 63]);
        }
    }
    out
}
fn b64url_dec(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut acc = 0u32;
    let mut bits = 0;
    for b in s.bytes() {
        let v = match b {
            b'A'..=b'Z' => b - b'A',
            b'a'..=b'z' => b - b'a' + 26,
            b'0'..=b'9' => b - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        } as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if bits >= 6 || acc != 0 {
        return None; // not canonical
    }
    Some(out)
}
pub fn now() -> i64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs() as i64
}
/// `lo`, `hi`: bounds of the time at which the checker is called.
pub fn jwt_ok(s: &str, (lo, hi): (i64, i64)) -> Option<bool> {
    let parts: Vec<&str> = s.split('.').collect();
    if parts.len() != 3 {
        return Some(false);
    }
    let mut js = vec![];
    for p in &parts[..2] {
        let Some(b) = b64url_dec(p) else { return Some(false) };
        let Ok(v) = serde_json::from_slice::<serde_json::Value>(&b) else {
            return Some(false);
        };
        js.push(v);
    }
    match js[1].get("exp") {
        None => Some(true),
        Some(e) => match e.as_i64() {
            None => Some(false),
            Some(t) => {
                if t <= lo {
                    Some(false)
                } else if t > hi {
                    Some(true)
                } else {
                    None
                }
            }
        },
    }
}

/// None: open.
pub fn valid(v: &V, s: &str, when: (i64, i64)) -> Option<bool> {
    match v {
        V::LuhnChecksum => Some(luhn_ok(&digits(s))),
        V::ChineseIdChecksum => Some(chinese_ok(s)),
        V::GithubTokenChecksum => Some(github_ok(s)),
        V::NhsCheckDigit => Some(nhs_ok(&digits(s))),
        V::IbanChecker => iban_ok(s),
        V::NirChecksum => Some(nir_ok(&digits(s))),
        V::JwtExpirationChecker => jwt_ok(s, when),
    }
}
