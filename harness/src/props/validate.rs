//! Match validation against scripted services (P21).
//!
//! A local HTTP service records every request and answers by a rule that the oracle can evaluate on
//! the request it expects; the monitor compares the recorded requests and the resulting statuses.
use super::scan::opts;
use crate::events::Val;
use crate::util::*;
use dd_sds::{
    AwsType, HttpMethod, HttpValidatorConfigBuilder, HttpValidatorHelper, MatchAction, MatchStatus,
    MatchValidationError, MatchValidationType, PartialRedactDirection, RegexRuleConfig, RequestHeader, RuleConfig,
    RuleMatch, Scanner,
};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, SystemTime};

macro_rules! bad {
    ($sig:expr, $($a:tt)*) => { return Outcome::Violated($sig.into(), format!($($a)*)) };
}

// ---------------------------------------------------------------- SHA-256 / HMAC (FIPS 180-4, RFC 2104)

fn sha256(data: &[u8]) -> [u8; 32] {
    fn primes(n: usize) -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        let mut k = 2;
        while v.len() < n {
            if v.iter().all(|p| k % p != 0) {
                v.push(k);
            }
            k += 1;
        }
        v
    }
    // first 32 bits of the fractional part of the root, by integer search
    fn frac(p: u64, cube: bool) -> u32 {
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            let le = if cube { m * m * m <= (p as u128) << 96 } else { m * m <= (p as u128) << 64 };
            if le {
                lo = m
            } else {
                hi = m
            }
        }
        lo as u32
    }
    static K: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    let (k, h0) = K.get_or_init(|| {
        let p = primes(64);
        (p.iter().map(|&x| frac(x, true)).collect(), p[..8].iter().map(|&x| frac(x, false)).collect())
    });
    let mut h: Vec<u32> = h0.clone();
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend(((data.len() as u64) * 8).to_be_bytes());
    for block in msg.chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).chain(data.iter().copied()).collect();
    let outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).chain(sha256(&inner)).collect();
    sha256(&outer)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---------------------------------------------------------------- the service

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Req {
    listener: usize,
    method: String,
    path: String,
    /// the configured headers (lower-case name, value), in order of arrival
    headers: Vec<(String, String)>,
    body: String,
}
impl Req {
    fn key(&self) -> String {
        format!("{self:?}")
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Code(u16),
    /// answers after some milliseconds
    Slow(u16, u64),
    Close,
    Garbage,
    /// closes in the middle of the answer's head
    Partial,
    /// never answers (the client is expected to time out)
    Hold,
}

struct Plan {
    salt: u64,
    names: Vec<String>,
    menu: Vec<Answer>,
    log: Vec<Req>,
    aws: Option<Aws>,
    faults: Vec<String>,
}
#[derive(Clone)]
struct Aws {
    secrets: Vec<String>,
    date: Option<String>,
}

fn plans() -> &'static Mutex<HashMap<u64, Plan>> {
    static P: OnceLock<Mutex<HashMap<u64, Plan>>> = OnceLock::new();
    P.get_or_init(Default::default)
}
fn answer(salt: u64, menu: &[Answer], r: &Req) -> Answer {
    menu[(hash_str(&format!("{salt}/{}", r.key())) % menu.len() as u64) as usize]
}

/// Base addresses ("127.0.0.1:port") of the listeners.
fn service() -> &'static [String] {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        (0..4)
            .map(|i| {
                let l = TcpListener::bind(("127.0.0.1", 0)).expect("no local listener");
                let addr = l.local_addr().unwrap().to_string();
                std::thread::spawn(move || {
                    for s in l.incoming().flatten() {
                        std::thread::Builder::new().stack_size(256 << 10).spawn(move || serve(i, s)).unwrap();
                    }
                });
                addr
            })
            .collect()
    })
}

fn serve(listener: usize, stream: TcpStream) {
    let _ = stream.set_nodelay(true);
    let mut rd = BufReader::new(match stream.try_clone() {
        Ok(s) => s,
        Err(_) => return,
    });
    let mut wr = stream;
    loop {
        let mut line = vec![];
        if rd.read_until(b'\n', &mut line).unwrap_or(0) == 0 {
            return;
        }
        let first = String::from_utf8_lossy(&line).trim_end().to_string();
        let mut it = first.split(' ');
        let (method, path) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
        let mut all = vec![];
        loop {
            let mut l = vec![];
            if rd.read_until(b'\n', &mut l).unwrap_or(0) == 0 {
                return;
            }
            let s = String::from_utf8_lossy(&l).trim_end_matches(['\r', '\n']).to_string();
            if s.is_empty() {
                break;
            }
            if let Some((k, v)) = s.split_once(':') {
                all.push((k.to_ascii_lowercase(), v.trim_matches([' ', '\t']).to_string()));
            }
        }
        let len = all.iter().find(|h| h.0 == "content-length").and_then(|h| h.1.parse().ok()).unwrap_or(0usize);
        let mut body = vec![0; len];
        if rd.read_exact(&mut body).is_err() {
            return;
        }
        let body = String::from_utf8_lossy(&body).to_string();
        let id: u64 = path.strip_prefix("/c").and_then(|r| r.split('/').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
        let ans = {
            let mut p = plans().lock().unwrap();
            let Some(plan) = p.get_mut(&id) else {
                // a late retry of a finished case
                return;
            };
            let req = match plan.aws.clone() {
                None => Req {
                    listener,
                    method,
                    path,
                    headers: all.iter().filter(|h| plan.names.contains(&h.0)).cloned().collect(),
                    body,
                },
                Some(aws) => match aws_request(&aws, listener, &method, &path, &all, &body) {
                    Ok(r) => r,
                    Err(e) => {
                        plan.faults.push(format!("{e}: {method} {path} {all:?} {body:?}"));
                        Req { listener, method, path, headers: all, body }
                    }
                },
            };
            let req = sort_headers(req);
            let a = answer(plan.salt, &plan.menu, &req);
            plan.log.push(req);
            a
        };
        let reply = |code: u16| format!("HTTP/1.1 {code} Status\r\nContent-Length: 0\r\n\r\n");
        match ans {
            Answer::Code(c) => {
                if wr.write_all(reply(c).as_bytes()).is_err() {
                    return;
                }
            }
            Answer::Slow(c, ms) => {
                std::thread::sleep(Duration::from_millis(ms));
                if wr.write_all(reply(c).as_bytes()).is_err() {
                    return;
                }
            }
            Answer::Close => return,
            Answer::Garbage => {
                let _ = wr.write_all(b"not a response at all\r\n\r\n");
                return;
            }
            Answer::Partial => {
                let _ = wr.write_all(b"HTTP/1.1 200 OK\r\nContent-Le");
                return;
            }
            Answer::Hold => {
                let _ = wr.set_read_timeout(Some(Duration::from_secs(20)));
                let mut b = [0; 1];
                match wr.read(&mut b) {
                    Ok(0) => {}
                    _ => {
                        let _ = wr.write_all(reply(200).as_bytes());
                    }
                }
                return;
            }
        }
    }
}

/// Verifies a request signed with AWS signature version 4 and names the key pair that signed it.
fn aws_request(
    aws: &Aws,
    listener: usize,
    method: &str,
    path: &str,
    all: &[(String, String)],
    body: &str,
) -> Result<Req, String> {
    let get = |k: &str| all.iter().find(|h| h.0 == k).map(|h| h.1.clone());
    let auth = get("authorization").ok_or("no authorization")?;
    let rest = auth.strip_prefix("AWS4-HMAC-SHA256 ").ok_or("unknown algorithm")?;
    let mut part: BTreeMap<String, String> = BTreeMap::new();
    for p in rest.split(',') {
        let (k, v) = p.trim().split_once('=').ok_or("malformed authorization")?;
        part.insert(k.into(), v.into());
    }
    let cred = part.get("Credential").ok_or("no credential")?;
    let f: Vec<&str> = cred.rsplitn(5, '/').collect();
    if f.len() != 5 || f[0] != "aws4_request" {
        return Err("malformed credential".into());
    }
    let (service, region, day, id) = (f[1], f[2], f[3], f[4]);
    if (service, region) != ("sts", "us-east-1") {
        return Err("wrong scope".into());
    }
    let date = get("x-amz-date").ok_or("no date")?;
    match &aws.date {
        Some(d) if *d != date => return Err(format!("date {date} instead of {d}")),
        Some(_) => {}
        None => {
            let now = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
            let ok = (0..1200).any(|k| stamp(now + 600 - k) == date);
            if !ok {
                return Err(format!("date {date} is not now"));
            }
        }
    }
    if !date.starts_with(day) || day.len() != 8 {
        return Err("scope date differs".into());
    }
    let signed = part.get("SignedHeaders").ok_or("no signed headers")?;
    let mut names: Vec<&str> = signed.split(';').collect();
    if !names.contains(&"host") || !names.contains(&"x-amz-date") {
        return Err("host and date must be signed".into());
    }
    if !names.windows(2).all(|w| w[0] < w[1]) {
        return Err("signed headers not sorted".into());
    }
    let mut canon = String::new();
    for n in names.drain(..) {
        canon += &format!("{n}:{}\n", get(n).ok_or(format!("signed header {n} is absent"))?);
    }
    let (p, q) = path.split_once('?').unwrap_or((path, ""));
    let creq = format!("{method}\n{p}\n{q}\n{canon}\n{signed}\n{}", hex(&sha256(body.as_bytes())));
    let scope = format!("{day}/{region}/{service}/aws4_request");
    let sts = format!("AWS4-HMAC-SHA256\n{date}\n{scope}\n{}", hex(&sha256(creq.as_bytes())));
    let want = part.get("Signature").ok_or("no signature")?;
    if body != "Action=GetCallerIdentity&Version=2011-06-15" || method != "POST" {
        return Err("not a caller identity request".into());
    }
    for s in &aws.secrets {
        let k = hmac(format!("AWS4{s}").as_bytes(), day.as_bytes());
        let k = hmac(&k, region.as_bytes());
        let k = hmac(&k, service.as_bytes());
        let k = hmac(&k, b"aws4_request");
        if hex(&hmac(&k, sts.as_bytes())) == *want {
            return Ok(aws_req(listener, path, id, s));
        }
    }
    Err("signature of no known secret".into())
}
fn aws_req(listener: usize, path: &str, id: &str, secret: &str) -> Req {
    Req {
        listener,
        method: "POST".into(),
        path: path.into(),
        headers: vec![("id".into(), id.into()), ("secret".into(), secret.into())],
        body: String::new(),
    }
}

/// "YYYYMMDDTHHMMSSZ" of a Unix time.
fn stamp(t: u64) -> String {
    let (days, s) = (t / 86400, t % 86400);
    let (mut y, mut d) = (1970, days);
    let leap = |y: u64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while d >= 365 + leap(y) as u64 {
        d -= 365 + leap(y) as u64;
        y += 1;
    }
    let mut m = 0;
    let len = |m: usize| [31, 28 + leap(y) as u64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
    while d >= len(m) {
        d -= len(m);
        m += 1;
    }
    format!("{y:04}{:02}{:02}T{:02}{:02}{:02}Z", m + 1, d + 1, s / 3600, s / 60 % 60, s % 60)
}

// ---------------------------------------------------------------- cases

struct Http {
    method: &'static str,
    headers: Vec<(String, String)>,
    valid: Vec<Range<u16>>,
    invalid: Vec<Range<u16>>,
    /// (listener, path) per endpoint; None if nothing can answer there
    endpoints: Vec<Option<(usize, String)>>,
    id: u64,
    rules: Vec<usize>,
    salt: u64,
    menu: Vec<Answer>,
}

fn fresh_id() -> u64 {
    static N: AtomicU64 = AtomicU64::new(1);
    N.fetch_add(1, Ordering::SeqCst)
}

/// Rank and, for errors, the text.
fn rank(s: &MatchStatus) -> u8 {
    match s {
        MatchStatus::NotChecked => 0,
        MatchStatus::NotAvailable => 1,
        MatchStatus::Invalid => 2,
        MatchStatus::Error(_) => 3,
        MatchStatus::Valid => 4,
    }
}
/// What an observed status may be: a rank, and for errors the admissible texts.
#[derive(Clone, Debug)]
struct Want {
    rank: u8,
    texts: Vec<String>,
}
impl Want {
    fn of(rank: u8) -> Want {
        Want { rank, texts: vec![] }
    }
    fn err(t: &str) -> Want {
        Want { rank: 3, texts: vec![t.into()] }
    }
    fn merge(&mut self, o: Want) {
        if o.rank > self.rank {
            *self = o;
        } else if o.rank == self.rank {
            self.texts.extend(o.texts);
        }
    }
    fn admits(&self, s: &MatchStatus) -> bool {
        rank(s) == self.rank
            && match s {
                MatchStatus::Error(t) => self.texts.iter().any(|w| match w.strip_suffix('*') {
                    Some(p) => t.starts_with(p),
                    None => t == w,
                }),
                _ => true,
            }
    }
}
const REQUEST_ERROR: &str = "Error making HTTP request: *";

fn http_want(valid: &[Range<u16>], invalid: &[Range<u16>], a: Answer) -> Want {
    match a {
        Answer::Code(c) | Answer::Slow(c, _) => {
            if valid.iter().any(|r| r.start <= c && c < r.end) {
                Want::of(4)
            } else if invalid.iter().any(|r| r.start <= c && c < r.end) {
                Want::of(2)
            } else {
                Want::err(&format!("Unexpected HTTP status code {c}"))
            }
        }
        _ => Want::err(REQUEST_ERROR),
    }
}
fn aws_want(a: Answer) -> Want {
    match a {
        Answer::Code(c) | Answer::Slow(c, _) => match c / 100 {
            2 => Want::of(4),
            4 => Want::of(2),
            5 => Want::err(&format!("Unexpected HTTP status code {c}")),
            _ => Want::of(0),
        },
        _ => Want::err(REQUEST_ERROR),
    }
}

fn gen_ranges(rng: &mut Rng, codes: &[u16]) -> Vec<Range<u16>> {
    (0..rng.below(4))
        .map(|_| {
            let c = *rng.pick(codes);
            match rng.below(5) {
                0 => c..c + 1,
                1 => c + 1..c + 50,
                2 => c / 100 * 100..c / 100 * 100 + 100,
                3 => c.saturating_sub(20)..c,
                _ => c.saturating_sub(7)..c + 30,
            }
        })
        .collect()
}
const CODES: &[u16] = &[
    200, 201, 204, 226, 299, 300, 304, 399, 400, 401, 403, 404, 418, 429, 451, 499, 500, 502, 503, 504, 599, 600, 799, 999,
];

fn gen_menu(rng: &mut Rng, faults: bool) -> Vec<Answer> {
    let n = rng.range(1, 6);
    (0..n)
        .map(|_| match rng.below(if faults { 14 } else { 10 }) {
            0..=7 => Answer::Code(*rng.pick(CODES)),
            8..=9 => Answer::Slow(*rng.pick(CODES), rng.range(1, 25) as u64),
            10 => Answer::Close,
            11 => Answer::Garbage,
            12 => Answer::Partial,
            _ => Answer::Close,
        })
        .collect()
}

fn gen_action(rng: &mut Rng) -> MatchAction {
    match rng.below(4) {
        0 => MatchAction::None,
        1 => MatchAction::Redact { replacement: rng.word(&["[X]", "", "redacted text much longer than before"]).into() },
        2 => MatchAction::Hash,
        _ => MatchAction::PartialRedact {
            direction: if rng.chance(1, 2) { PartialRedactDirection::FirstCharacters } else { PartialRedactDirection::LastCharacters },
            character_count: rng.range(1, 9),
        },
    }
}

/// Where a value sits: (rule, path text, value), as multiset.
type Placed = BTreeMap<(usize, String, String), usize>;

struct Build {
    contents: Vec<(String, String)>,
    placed: Placed,
}
impl Build {
    fn new(rng: &mut Rng, fields: usize) -> Build {
        let _ = rng;
        Build { contents: (0..fields).map(|i| (format!("f{i}"), String::new())).collect(), placed: BTreeMap::new() }
    }
    fn put(&mut self, rng: &mut Rng, rule: usize, value: &str) {
        let i = rng.below(self.contents.len());
        let c = &mut self.contents[i];
        for _ in 0..rng.below(3) {
            c.1.push_str(rng.word(&["é", "word", "漢", "😀", " "]));
            c.1.push(' ');
        }
        c.1.push_str(value);
        c.1.push_str(" ; ");
        *self.placed.entry((rule, c.0.clone(), value.to_string())).or_insert(0) += 1;
    }
    fn event(&self) -> Val {
        Val::Map(self.contents.iter().map(|(k, v)| (k.clone(), Val::Str(v.clone()))).collect())
    }
}

/// All fields of a match but its status.
fn plain(m: &RuleMatch) -> String {
    format!(
        "{} {} {:?} {}..{} {} {:?}",
        m.rule_index, m.path, m.replacement_type, m.start_index, m.end_index_exclusive, m.shift_offset, m.match_value
    )
}
/// Checks that validation returned the matches it was given, in order of position.
fn conserved(before: &[String], after: &[RuleMatch]) -> Option<(String, String)> {
    let mut a: Vec<String> = before.to_vec();
    let mut b: Vec<String> = after.iter().map(plain).collect();
    a.sort();
    b.sort();
    if a != b {
        return Some(("matches-changed".into(), format!("given {a:#?}\nreturned {b:#?}")));
    }
    if !after.windows(2).all(|w| w[0].start_index <= w[1].start_index) {
        return Some(("not-in-order".into(), format!("{:?}", after.iter().map(|m| m.start_index).collect::<Vec<_>>())));
    }
    None
}

const ALNUM: &str = "abcdefghijklmnopqrstuvwxyz0123456789";

fn http_case(case: &mut Case, many: bool) -> Outcome {
    let rng = &mut case.rng;
    let bases = service();
    let mut cfgs: Vec<Arc<dyn RuleConfig>> = vec![];
    let mut groups: Vec<Http> = vec![];
    let n_rules = if many { rng.range(1, 4) } else { rng.range(1, 5) };
    // per rule: index of its group
    let mut of_rule: Vec<Option<usize>> = vec![];
    let mut kinds: Vec<MatchValidationType> = vec![];
    let mut wild: Vec<bool> = vec![];
    for r in 0..n_rules {
        // values of this rule: "<letter>_" and a tail; some rules take characters that no header can carry
        let odd = rng.chance(1, 6);
        wild.push(odd);
        let pat = if odd { format!(r"{}_[a-z0-9é\n\t]{{4,9}}\b", (b'P' + r as u8) as char) } else { format!(r"{}_[a-z0-9]{{4,9}}\b", (b'P' + r as u8) as char) };
        let b = RegexRuleConfig::new(&pat).match_action(gen_action(rng));
        let g = if many { Some(0).filter(|_| r < 2) } else if rng.chance(1, 4) { None } else { Some(rng.below(3)) };
        let b = match g {
            None => {
                if rng.chance(1, 3) {
                    // validated only together with a secret, which no rule of this scanner looks for
                    of_rule.push(Some(usize::MAX));
                    b.match_validation_type(MatchValidationType::Aws(AwsType::AwsId))
                } else {
                    of_rule.push(None);
                    b
                }
            }
            Some(g) => {
                while kinds.len() <= g {
                    let id = fresh_id();
                    let codes: Vec<u16> = CODES.to_vec();
                    let multi = rng.chance(1, 2) || many;
                    let tail = rng.word(&["", "v1/validate", "a/b-c.d", "x?q=1&r=2"]);
                    let (endpoint, hosts): (String, Vec<String>) = if multi {
                        let mut hs: Vec<String> = (0..rng.range(1, 3)).map(|_| rng.pick(bases).clone()).collect();
                        if rng.chance(1, 5) {
                            hs.push("127.0.0.1:1".into());
                        }
                        if rng.chance(1, 4) {
                            (format!("http://$HOST/c{id}/$HOST/{tail}"), hs)
                        } else {
                            (format!("http://$HOST/c{id}/{tail}"), hs)
                        }
                    } else if rng.chance(1, 12) {
                        (rng.word(&["http://127.0.0.1:1/x", "no url", "http://", "ftp://127.0.0.1/x"]).to_string(), vec![])
                    } else {
                        (format!("http://{}/c{id}/{tail}", rng.pick(bases)), vec![])
                    };
                    let mut b = HttpValidatorConfigBuilder::new(endpoint.clone());
                    if !hosts.is_empty() {
                        b.set_hosts(hosts.clone());
                    }
                    let mut h = Http {
                        method: "GET",
                        headers: vec![("authorization".into(), "Bearer $MATCH".into())],
                        valid: vec![200..300],
                        invalid: vec![400..500],
                        endpoints: vec![],
                        id,
                        rules: vec![],
                        salt: rng.next(),
                        menu: vec![],
                    };
                    if rng.chance(3, 4) {
                        let (m, s) = [
                            (HttpMethod::Get, "GET"),
                            (HttpMethod::Post, "POST"),
                            (HttpMethod::Put, "PUT"),
                            (HttpMethod::Delete, "DELETE"),
                            (HttpMethod::Patch, "PATCH"),
                        ][rng.below(5)]
                        .clone();
                        b.set_method(m);
                        h.method = s;
                    }
                    if rng.chance(3, 4) {
                        h.headers = (0..rng.range(1, 4))
                            .map(|i| {
                                let k = rng.word(&["X-Key", "Authorization", "x-other", "DD-API-KEY", "X-MATCH"]).to_string();
                                let v = rng
                                    .word(&["$MATCH", "Bearer $MATCH", "$MATCH/$MATCH", "a$MATCHb", "static value", "$match", "$ MATCH $MATCH", "$HOST$MATCH"])
                                    .to_string();
                                if i == 0 {
                                    (k, "first $MATCH".to_string())
                                } else {
                                    (k, v)
                                }
                            })
                            .collect();
                        if rng.chance(1, 25) {
                            h.headers.push(("not a name".into(), "v".into()));
                        }
                        b.set_request_header(h.headers.iter().map(|(k, v)| RequestHeader { key: k.clone(), value: v.clone() }).collect());
                    }
                    if rng.chance(1, 2) {
                        h.valid = gen_ranges(rng, &codes);
                        b.set_valid_http_status_code(h.valid.clone());
                    }
                    if rng.chance(1, 2) {
                        h.invalid = gen_ranges(rng, &codes);
                        b.set_invalid_http_status_code(h.invalid.clone());
                    }
                    let hold = !many && rng.chance(1, 30);
                    if hold {
                        h.menu = vec![Answer::Hold];
                        b.set_timeout(Duration::from_millis(80));
                    } else {
                        h.menu = gen_menu(rng, true);
                        b.set_timeout(Duration::from_secs(120));
                    }
                    let cfg = match b.build() {
                        Ok(c) => c,
                        Err(e) => bad!("config-rejected", "{endpoint} with hosts {hosts:?}: {e}"),
                    };
                    let mut expect: Vec<String> = hosts.iter().map(|x| endpoint.split("$HOST").collect::<Vec<_>>().join(x)).collect();
                    if hosts.is_empty() {
                        expect.push(endpoint);
                    }
                    if cfg.endpoints != expect {
                        bad!("endpoints", "expected {expect:?}, configured {:?}", cfg.endpoints);
                    }
                    expect.sort();
                    expect.dedup();
                    h.endpoints = expect
                        .iter()
                        .map(|e| {
                            let rest = e.strip_prefix("http://")?;
                            let (host, path) = rest.split_once('/')?;
                            Some((bases.iter().position(|b| b == host)?, format!("/{path}")))
                        })
                        .collect();
                    kinds.push(MatchValidationType::CustomHttp(cfg));
                    groups.push(h);
                }
                groups[g].rules.push(r);
                of_rule.push(Some(g));
                b.match_validation_type(kinds[g].clone())
            }
        };
        cfgs.push(b.build());
    }
    let validated = of_rule.iter().any(|g| matches!(g, Some(i) if *i != usize::MAX));

    // the event
    let mut build = Build::new(rng, 3);
    let n_values = if many { rng.range(60, 150) } else { rng.range(0, 9) };
    let mut pool: Vec<(usize, String)> = vec![];
    for _ in 0..n_values {
        if !pool.is_empty() && rng.chance(1, 5) {
            let (r, v) = rng.pick(&pool).clone();
            build.put(rng, r, &v);
            continue;
        }
        let r = rng.below(n_rules);
        let mut v = format!("{}_", (b'P' + r as u8) as char);
        for _ in 0..rng.range(3, 8) {
            v.push(if wild[r] && rng.chance(1, 6) { *rng.pick(&['é', '\n', '\t']) } else { rng.pick_char(ALNUM) });
        }
        v.push(rng.pick_char(ALNUM));
        pool.push((r, v.clone()));
        build.put(rng, r, &v);
    }
    if many && rng.chance(2, 3) {
        // a crowd of matches that no service is asked about
        if let Some(r) = (0..n_rules).find(|r| of_rule[*r].map_or(true, |g| g == usize::MAX)) {
            for i in 0..rng.range(60, 300) {
                build.put(rng, r, &format!("{}_{i:04}", (b'P' + r as u8) as char));
            }
            case.tag("more than 60 matches without a service");
        }
    }

    let rng = &mut case.rng;
    let scanner = match guarded(|| Scanner::builder(&cfgs).build()) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => bad!("build", "rejected: {e}"),
        Err(p) => bad!("panic", "building: {} at {}", p.msg, p.loc),
    };
    let mut ev = build.event().to_simple();
    let mut ms = scanner.scan(&mut ev, vec![]);
    let mut seen: Placed = BTreeMap::new();
    for m in &ms {
        match (&m.match_value, validated) {
            (Some(v), true) => *seen.entry((m.rule_index, m.path.to_string(), v.clone())).or_insert(0) += 1,
            (None, false) => *seen.entry((m.rule_index, m.path.to_string(), String::new())).or_insert(0) += 1,
            (v, _) => bad!("match-value", "value {v:?} although the scanner {} validators", if validated { "has" } else { "has no" }),
        }
        let want = if of_rule[m.rule_index].is_some() { MatchStatus::NotChecked } else { MatchStatus::NotAvailable };
        if m.match_status != want {
            bad!("initial-status", "{:?} instead of {want:?} for rule {}", m.match_status, m.rule_index);
        }
    }
    let mut placed: Placed = BTreeMap::new();
    for ((r, p, v), n) in &build.placed {
        *placed.entry((*r, p.clone(), if validated { v.clone() } else { String::new() })).or_insert(0) += n;
    }
    if seen != placed {
        bad!("match-value", "placed {placed:?}\nreported {seen:?}");
    }
    if !many && rng.chance(1, 3) {
        rng.shuffle(&mut ms);
    }
    let before: Vec<String> = ms.iter().map(plain).collect();
    if !validated {
        let r = guarded(|| scanner.validate_matches(&mut ms));
        return match r {
            Ok(Err(MatchValidationError::NoMatchValidationType)) => {
                let after: Vec<String> = ms.iter().map(plain).collect();
                if after != before {
                    bad!("matches-changed", "a refused validation changed the matches: {before:?} -> {after:?}");
                }
                case.tag("refused: no validator");
                Outcome::Held(hash_str(&format!("{before:?}")), !before.is_empty())
            }
            Ok(r) => Outcome::Violated("validates-nothing".into(), format!("{r:?} without any validator")),
            Err(p) => Outcome::Violated("panic".into(), format!("{} at {}", p.msg, p.loc)),
        };
    }

    // one or two rounds of validation; the second with other answers
    let rounds = if rng.chance(1, 3) { 2 } else { 1 };
    let mut wants: Vec<(String, Want)> = vec![];
    let mut requests = 0u64;
    let mut outcomes = [0u64; 5];
    for round in 0..rounds {
        for h in groups.iter_mut() {
            if round > 0 && h.menu != [Answer::Hold] {
                h.salt = rng.next();
                h.menu = gen_menu(rng, true);
            }
            plans().lock().unwrap().insert(
                h.id,
                Plan {
                    salt: h.salt,
                    names: h.headers.iter().map(|x| x.0.to_ascii_lowercase()).collect(),
                    menu: h.menu.clone(),
                    log: vec![],
                    aws: None,
                    faults: vec![],
                },
            );
        }
        let r = guarded(|| scanner.validate_matches(&mut ms));
        let logs: Vec<Vec<Req>> = groups.iter().map(|h| plans().lock().unwrap().remove(&h.id).unwrap().log).collect();
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => bad!("refused", "{e:?} with {} validators", groups.len()),
            Err(p) => bad!("panic", "validating: {} at {}", p.msg, p.loc),
        }
        if let Some((s, d)) = conserved(&before, &ms) {
            bad!(s, "{d}");
        }
        let mut expected: Vec<BTreeMap<Req, (usize, bool)>> = groups.iter().map(|_| BTreeMap::new()).collect();
        let mut round_wants: Vec<(String, Want)> = vec![];
        for m in &ms {
            let v = m.match_value.clone().unwrap();
            let mut want = Want::of(if of_rule[m.rule_index].is_some() { 0 } else { 1 });
            if let Some(g) = of_rule[m.rule_index].filter(|g| *g != usize::MAX) {
                let h = &groups[g];
                // a header can carry any text without control characters other than a tab
                let carried = h.headers.iter().all(|(k, t)| {
                    !k.contains(' ') && (!t.contains("$MATCH") || v.chars().all(|c| c == '\t' || !c.is_ascii_control()))
                });
                for e in &h.endpoints {
                    match e {
                        Some((listener, path)) if carried => {
                            let q = Req {
                                listener: *listener,
                                method: h.method.into(),
                                path: path.clone(),
                                headers: h
                                    .headers
                                    .iter()
                                    .map(|(k, t)| {
                                        (k.to_ascii_lowercase(), t.split("$MATCH").collect::<Vec<_>>().join(&v).trim_matches([' ', '\t']).to_string())
                                    })
                                    .collect(),
                                body: String::new(),
                            };
                            let q = sort_headers(q);
                            let a = answer(h.salt, &h.menu, &q);
                            want.merge(http_want(&h.valid, &h.invalid, a));
                            let exact = matches!(a, Answer::Code(_) | Answer::Slow(..));
                            expected[g].entry(q).or_insert((0, exact)).0 += 1;
                        }
                        _ => want.merge(Want::err(REQUEST_ERROR)),
                    }
                }
            }
            round_wants.push((plain(m), want));
        }
        for (g, log) in logs.iter().enumerate() {
            requests += log.len() as u64;
            let mut got: BTreeMap<Req, usize> = BTreeMap::new();
            for q in log {
                *got.entry(sort_headers(q.clone())).or_insert(0) += 1;
            }
            for (q, n) in &got {
                let Some((want, exact)) = expected[g].get(q) else {
                    bad!("unexpected-request", "the service got {q:?}, which no match calls for; expected {:#?}", expected[g]);
                };
                if n < want || (*exact && n != want) {
                    bad!("request-count", "{n} requests instead of {want}: {q:?}");
                }
            }
            if let Some(q) = expected[g].keys().find(|q| !got.contains_key(*q)) {
                bad!("missing-request", "never sent: {q:?}");
            }
        }
        // earlier rounds count as well
        for (i, (k, w)) in round_wants.iter_mut().enumerate() {
            if let Some(p) = wants.iter().position(|x| x.0 == *k) {
                let old = wants.remove(p).1;
                w.merge(old);
            }
            let _ = i;
        }
        for (m, (k, w)) in ms.iter().zip(&round_wants) {
            if !w.admits(&m.match_status) {
                bad!("status", "round {round}: {k} got {:?}, expected {w:?}", m.match_status);
            }
            outcomes[rank(&m.match_status) as usize] += 1;
        }
        wants = round_wants;
    }
    case.tagn("requests recorded", requests);
    case.tagn("matches validated", ms.len() as u64);
    for (i, n) in outcomes.iter().enumerate() {
        case.tagn(["not checked", "not available", "invalid", "error", "valid"][i], *n);
    }
    if rounds > 1 {
        case.tag("validated twice");
    }
    let all: Vec<Answer> = groups.iter().filter(|h| !h.rules.is_empty()).flat_map(|h| h.menu.clone()).collect();
    for a in all {
        match a {
            Answer::Code(_) => {}
            Answer::Slow(..) => case.tag("service: slow"),
            Answer::Close => case.tag("service: closes the connection"),
            Answer::Garbage => case.tag("service: answers garbage"),
            Answer::Partial => case.tag("service: truncated answer"),
            Answer::Hold => case.tag("service: never answers"),
        }
    }
    if case.sample.is_none() {
        case.sample = Some(json!({"requests": requests, "matches": before.len(), "statuses": ms.iter().map(|m| format!("{:?}", m.match_status)).take(6).collect::<Vec<_>>()}));
    }
    Outcome::Held(hash_str(&format!("{before:?}{:?}", ms.iter().map(|m| rank(&m.match_status)).collect::<Vec<_>>())), requests > 0)
}

/// Headers of different names may be sent in any order.
fn sort_headers(mut q: Req) -> Req {
    q.headers.sort_by(|a, b| a.0.cmp(&b.0));
    q
}

/// The first 40 characters of base64 alphabet that end at a word boundary.
fn secret_of(v: &str) -> String {
    let c: Vec<char> = v.chars().collect();
    let word = |x: Option<&char>| x.map_or(false, |x| x.is_alphanumeric() || *x == '_');
    for i in 0..c.len() {
        if i + 40 <= c.len()
            && c[i..i + 40].iter().all(|x| x.is_ascii_alphanumeric() || *x == '/' || *x == '+')
            && word(c.get(i + 39)) != word(c.get(i + 40))
        {
            return c[i..i + 40].iter().collect();
        }
    }
    String::new()
}

fn aws_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    let bases = service();
    let id = fresh_id();
    let listener = rng.below(bases.len());
    let path = format!("/c{id}/{}", rng.word(&["", "sts", "a/b"]));
    let refused = rng.chance(1, 12);
    let not_url = !refused && rng.chance(1, 20);
    let endpoint = if refused {
        "http://127.0.0.1:1/".to_string()
    } else if not_url {
        rng.word(&["", "sts", "http://", "::"]).to_string()
    } else {
        format!("http://{}{path}", bases[listener])
    };
    let t = rng.range(0, 4_000_000_000) as u64;
    let forced = rng.chance(2, 3);
    let s = stamp(t);
    let iso = format!("{}-{}-{}T{}:{}:{}Z", &s[..4], &s[4..6], &s[6..8], &s[9..11], &s[11..13], &s[13..15]);
    let hold = rng.chance(1, 40);
    let timeout = if hold { json!({"secs": 0, "nanos": 80_000_000}) } else { json!({"secs": 120, "nanos": 0}) };
    let secret_cfg: AwsType = serde_json::from_value(json!({"AwsSecret": {
        "aws_sts_endpoint": endpoint,
        "forced_datetime_utc": if forced { json!(iso) } else { json!(null) },
        "timeout": timeout,
    }}))
    .expect("aws configuration");
    let n_id = rng.range(0, 2);
    let n_secret = rng.range(if n_id == 0 { 1 } else { 0 }, 2);
    let mut kinds: Vec<u8> = vec![0; n_id];
    kinds.extend(vec![1; n_secret]);
    if rng.chance(1, 3) {
        kinds.push(2); // session: not supported, stays unchecked
    }
    if rng.chance(1, 3) {
        kinds.push(3); // no validation
    }
    rng.shuffle(&mut kinds);
    let odd_ids = rng.chance(1, 6);
    let mut cfgs: Vec<Arc<dyn RuleConfig>> = vec![];
    for (r, k) in kinds.iter().enumerate() {
        let tag = (b'P' + r as u8) as char;
        let pat = match k {
            0 => format!("{tag}KIA[A-Z0-9é\\n]{{4,16}}"),
            1 => format!("{tag}key[=: é]?[A-Za-z0-9/+_é]{{38,46}}"),
            _ => format!("{tag}other[0-9]+"),
        };
        let b = RegexRuleConfig::new(&pat).match_action(gen_action(rng));
        cfgs.push(match k {
            0 => b.match_validation_type(MatchValidationType::Aws(AwsType::AwsId)).build(),
            1 => b.match_validation_type(MatchValidationType::Aws(secret_cfg.clone())).build(),
            2 => b.match_validation_type(MatchValidationType::Aws(AwsType::AwsSession)).build(),
            _ => b.build(),
        });
    }
    let mut build = Build::new(rng, 3);
    let mut n_placed = [0; 4];
    // at most a few of each, the pairs multiply; sometimes many of one
    let mut most = [4; 4];
    let mut tries = rng.range(1, 7);
    if rng.chance(1, 8) {
        let k = rng.below(4);
        most = [2; 4];
        most[k] = 40;
        tries = rng.range(10, 60);
    }
    for _ in 0..tries {
        let r = rng.below(kinds.len());
        let tag = (b'P' + r as u8) as char;
        if n_placed[kinds[r] as usize] >= most[kinds[r] as usize] {
            continue;
        }
        n_placed[kinds[r] as usize] += 1;
        let v = match kinds[r] {
            0 => {
                let mut v = format!("{tag}KIA");
                for _ in 0..rng.range(4, 15) {
                    v.push(if odd_ids && rng.chance(1, 8) { *rng.pick(&['é', '\n']) } else { rng.pick_char("ABCDEFGHIJ0123456789") });
                }
                v
            }
            1 => {
                let mut v = format!("{tag}key");
                v.push_str(rng.word(&["=", ":", " ", "é", ""]));
                let n = *rng.pick(&[40, 40, 40, 39, 41, 42, 44, 46, 38]);
                for _ in 0..n {
                    v.push(if rng.chance(1, 8) { *rng.pick(&['/', '+']) } else { rng.pick_char("abcdefghijklmnopqrstuvwxyzABCDEF0123456789") });
                }
                if rng.chance(1, 6) {
                    // one character that is not part of a key
                    let at = v.char_indices().map(|x| x.0).nth(rng.range(5, v.chars().count() - 1)).unwrap();
                    let len = v[at..].chars().next().unwrap().len_utf8();
                    v.replace_range(at..at + len, rng.word(&["_", "é"]));
                }
                v
            }
            _ => format!("{tag}other{}", rng.below(1000)),
        };
        build.put(rng, r, &v);
    }
    let menu = if hold { vec![Answer::Hold] } else { gen_menu(rng, true) };
    let salt = rng.next();
    let scanner = match guarded(|| Scanner::builder(&cfgs).build()) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => bad!("build", "rejected: {e}"),
        Err(p) => bad!("panic", "building: {} at {}", p.msg, p.loc),
    };
    let mut ev = build.event().to_simple();
    let mut ms = scanner.scan(&mut ev, vec![]);
    let has_validator = kinds.contains(&1);
    let before: Vec<String> = ms.iter().map(plain).collect();
    for m in &ms {
        if m.match_value.is_some() != has_validator {
            bad!("match-value", "{:?} although a validator {} be created from {kinds:?}", m.match_value, if has_validator { "can" } else { "cannot" });
        }
    }
    let secrets: Vec<String> = ms
        .iter()
        .filter(|m| kinds[m.rule_index] == 1)
        .map(|m| secret_of(m.match_value.as_deref().unwrap_or("")))
        .collect();
    plans().lock().unwrap().insert(
        id,
        Plan { salt, names: vec![], menu: menu.clone(), log: vec![], aws: Some(Aws { secrets: secrets.clone(), date: forced.then_some(s) }), faults: vec![] },
    );
    let r = guarded(|| scanner.validate_matches(&mut ms));
    let plan = plans().lock().unwrap().remove(&id).unwrap();
    match r {
        Ok(Ok(())) if has_validator => {}
        Ok(Err(MatchValidationError::NoMatchValidationType)) if !has_validator => {
            let after: Vec<String> = ms.iter().map(plain).collect();
            if after != before {
                bad!("matches-changed", "a refused validation changed the matches");
            }
            case.tag("refused: no secret rule");
            return Outcome::Held(hash_str(&format!("{before:?}")), !before.is_empty());
        }
        Ok(r) => bad!("refused", "{r:?} for {kinds:?}"),
        Err(p) => bad!("aws-panic", "validating {before:#?} with endpoint {endpoint:?}: {} at {}", p.msg, p.loc),
    }
    if let Some((s, d)) = conserved(&before, &ms) {
        bad!(s, "{d}");
    }
    if let Some(f) = plan.faults.first() {
        bad!("signature", "{f}\nsecrets {secrets:?}");
    }
    let mut wants: Vec<Want> = ms.iter().map(|m| Want::of(if kinds[m.rule_index] == 3 { 1 } else { 0 })).collect();
    let mut expected: BTreeMap<Req, (usize, bool)> = BTreeMap::new();
    let mut pairs = 0;
    for i in 0..ms.len() {
        for j in 0..ms.len() {
            if kinds[ms[i].rule_index] != 0 || kinds[ms[j].rule_index] != 1 {
                continue;
            }
            pairs += 1;
            let key = ms[i].match_value.clone().unwrap();
            let unsendable = refused || not_url || key.chars().any(|c| c.is_ascii_control());
            let w = if unsendable {
                Want::err(REQUEST_ERROR)
            } else {
                let q = aws_req(listener, &path, &key, &secret_of(ms[j].match_value.as_deref().unwrap()));
                let a = answer(salt, &menu, &q);
                expected.entry(q).or_insert((0, matches!(a, Answer::Code(_) | Answer::Slow(..)))).0 += 1;
                aws_want(a)
            };
            wants[i].merge(w.clone());
            wants[j].merge(w);
        }
    }
    let mut got: BTreeMap<Req, usize> = BTreeMap::new();
    for q in &plan.log {
        *got.entry(q.clone()).or_insert(0) += 1;
    }
    for (q, n) in &got {
        let Some((want, exact)) = expected.get(q) else {
            bad!("unexpected-request", "the service got {q:?}; expected {expected:#?}");
        };
        if n < want || (*exact && n != want) {
            bad!("request-count", "{n} requests instead of {want}: {q:?}");
        }
    }
    if let Some(q) = expected.keys().find(|q| !got.contains_key(*q)) {
        bad!("missing-request", "never sent: {q:?}");
    }
    for (m, w) in ms.iter().zip(&wants) {
        if !w.admits(&m.match_status) {
            bad!("status", "{} got {:?}, expected {w:?}", plain(m), m.match_status);
        }
    }
    case.tagn("signed requests verified", plan.log.len() as u64);
    case.tagn("pairs", pairs);
    if not_url {
        case.tag("endpoint is not a URL");
    }
    Outcome::Held(hash_str(&format!("{before:?}{:?}", ms.iter().map(|m| rank(&m.match_status)).collect::<Vec<_>>())), pairs > 0)
}

// ---------------------------------------------------------------- precedence and configurations

fn merge_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    let all: Vec<MatchStatus> = (0..rng.range(1, 7))
        .map(|_| match rng.below(5) {
            0 => MatchStatus::NotChecked,
            1 => MatchStatus::NotAvailable,
            2 => MatchStatus::Invalid,
            3 => MatchStatus::Error(rng.word(&["", "a", "b", "Unexpected HTTP status code 500", "Error making HTTP request: x"]).into()),
            _ => MatchStatus::Valid,
        })
        .collect();
    let run = |v: &[MatchStatus]| {
        let mut s = v[0].clone();
        for x in &v[1..] {
            let was = rank(&s);
            s.merge(x.clone());
            if rank(&s) != was.max(rank(x)) {
                return Err(format!("merging {x:?} into a status of rank {was} gave {s:?}"));
            }
        }
        Ok(s)
    };
    let a = match run(&all) {
        Ok(s) => s,
        Err(e) => bad!("precedence", "{e}"),
    };
    let mut other = all.clone();
    rng.shuffle(&mut other);
    other.push(rng.pick(&all).clone());
    match run(&other) {
        Ok(b) if a == b => {}
        Ok(b) => bad!("order", "{all:?} gave {a:?}, {other:?} gave {b:?}"),
        Err(e) => bad!("precedence", "{e}"),
    }
    Outcome::Held(hash_str(&format!("{all:?}")), all.len() > 1)
}

fn config_case(case: &mut Case) -> Outcome {
    let rng = &mut case.rng;
    let endpoint = rng.word(&["https://$HOST/x", "https://a.b/x", "$HOST", "https://$HOST/$HOST?h=$HOST", "https://$host/", "https://$HOS/T", ""]);
    let hosts: Vec<String> = (0..rng.below(4)).map(|_| rng.word(&["a.com", "b", "", "$HOST", "x/y"]).to_string()).collect();
    let mut b = HttpValidatorConfigBuilder::new(endpoint.into());
    b.set_hosts(hosts.clone());
    let has = endpoint.contains("$HOST");
    match b.build() {
        Ok(c) => {
            if has == hosts.is_empty() {
                bad!("hosts-mismatch", "{endpoint:?} with hosts {hosts:?} was accepted");
            }
            let mut want: Vec<String> = hosts.iter().map(|h| endpoint.split("$HOST").collect::<Vec<_>>().join(h)).collect();
            if hosts.is_empty() {
                want.push(endpoint.into());
            }
            if c.endpoints != want {
                bad!("endpoints", "{endpoint:?} with {hosts:?} gave {:?}", c.endpoints);
            }
            let ok = c.method == HttpMethod::Get
                && c.request_header == [RequestHeader { key: "Authorization".into(), value: "Bearer $MATCH".into() }]
                && c.valid_http_status_code == [200..300]
                && c.invalid_http_status_code == [400..500]
                && c.options.timeout == Duration::from_secs(3);
            if !ok {
                bad!("defaults", "{c:?}");
            }
        }
        Err(e) => {
            if has != hosts.is_empty() {
                bad!("hosts-mismatch", "{endpoint:?} with hosts {hosts:?} was rejected: {e}");
            }
        }
    }
    let h = |k: &str, v: &str| RequestHeader { key: k.into(), value: v.into() };
    let g = HttpValidatorHelper::new_github_config_builder().build();
    let ok = matches!(&g, Ok(c) if c.endpoints == ["https://api.github.com/octocat"] && c.method == HttpMethod::Get
        && c.request_header.contains(&h("Authorization", "Bearer $MATCH"))
        && c.valid_http_status_code == [200..300] && c.invalid_http_status_code == [400..500]);
    if !ok {
        bad!("github", "{g:?}");
    }
    let d = HttpValidatorHelper::new_datadog_config_builder().build();
    let ok = matches!(&d, Ok(c) if c.endpoints.len() == 6 && c.method == HttpMethod::Get
        && c.endpoints.iter().all(|e| e.starts_with("https://api.") && e.ends_with("/api/v1/validate"))
        && c.request_header.contains(&h("DD-API-KEY", "$MATCH"))
        && c.valid_http_status_code == [200..300] && c.invalid_http_status_code == [403..404]);
    if !ok {
        bad!("datadog", "{d:?}");
    }
    Outcome::Held(hash_str(&format!("{endpoint}{hosts:?}")), true)
}

/// A service that answers only after a while, against timeouts that are clearly shorter or longer.
/// A wrong status counts only when three attempts agree on it.
fn timeout_case(case: &mut Case) -> Outcome {
    // (AWS?, configured timeout or the default of 3 s, delay of the answer): milliseconds
    let table: [(bool, Option<u64>, u64); 8] = [
        (false, Some(100), 2500),
        (true, Some(100), 2500),
        (false, Some(60_000), 4500),
        (true, Some(60_000), 4500),
        (false, None, 300),
        (false, None, 9000),
        (false, Some(800), 8000),
        (true, Some(800), 8000),
    ];
    let (aws, timeout, delay) = table[case.n as usize % table.len()];
    let rng = &mut case.rng;
    let fits = timeout.unwrap_or(3000) > delay;
    let bases = service();
    let listener = rng.below(bases.len());
    let mut last = None;
    for _ in 0..3 {
        let id = fresh_id();
        let url = format!("http://{}/c{id}/", bases[listener]);
        let secret: String = (0..40).map(|_| rng.pick_char(ALNUM)).collect();
        let (cfgs, text): (Vec<Arc<dyn RuleConfig>>, String) = if aws {
            let ms = timeout.unwrap();
            let cfg: AwsType = serde_json::from_value(json!({"AwsSecret": {"aws_sts_endpoint": url, "forced_datetime_utc": null,
                "timeout": {"secs": ms / 1000, "nanos": ms % 1000 * 1_000_000}}}))
            .expect("aws configuration");
            (
                vec![
                    RegexRuleConfig::new("AKIA[A-Z0-9]{8}").match_validation_type(MatchValidationType::Aws(AwsType::AwsId)).build(),
                    RegexRuleConfig::new("key=[a-z0-9]{40}").match_validation_type(MatchValidationType::Aws(cfg)).build(),
                ],
                format!("AKIA0123ABCD key={secret}"),
            )
        } else {
            let mut b = HttpValidatorConfigBuilder::new(url);
            if let Some(ms) = timeout {
                b.set_timeout(Duration::from_millis(ms));
            }
            let c = match b.build() {
                Ok(c) => c,
                Err(e) => bad!("config-rejected", "{e}"),
            };
            (vec![RegexRuleConfig::new("key=[a-z0-9]{40}").match_validation_type(MatchValidationType::CustomHttp(c)).build()], format!("key={secret}"))
        };
        plans().lock().unwrap().insert(
            id,
            Plan {
                salt: 0,
                names: vec![],
                menu: vec![Answer::Slow(200, delay)],
                log: vec![],
                aws: aws.then(|| Aws { secrets: vec![secret.clone()], date: None }),
                faults: vec![],
            },
        );
        let r = guarded(|| {
            let scanner = Scanner::builder(&cfgs).build().map_err(|e| e.to_string())?;
            let mut ev = Val::Str(text.clone()).to_simple();
            let mut ms = scanner.scan(&mut ev, vec![]);
            scanner.validate_matches(&mut ms).map_err(|e| format!("{e:?}"))?;
            Ok::<_, String>(ms)
        });
        plans().lock().unwrap().remove(&id);
        let ms = match r {
            Ok(Ok(ms)) => ms,
            Ok(Err(e)) => bad!("timeouts", "refused: {e}"),
            Err(p) => bad!("panic", "{} at {}", p.msg, p.loc),
        };
        let want = if fits { Want::of(4) } else { Want::err(REQUEST_ERROR) };
        match ms.iter().find(|m| !want.admits(&m.match_status)) {
            None => {
                let n = case.n;
                case.tag(if fits { "answered in time" } else { "timed out" });
                return Outcome::Held(n, !ms.is_empty());
            }
            Some(m) => last = Some(format!("{:?}", m.match_status)),
        }
    }
    bad!("timeouts", "three times in a row: timeout {timeout:?} ms, answer after {delay} ms (aws: {aws}): status {last:?}")
}

pub fn p21(ctx: &Ctx) {
    for k in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
    std::env::set_var("NO_PROXY", "*");
    assert_eq!(hex(&sha256(b"abc"))[..16], *"ba7816bf8f01cfea");
    ctx.phase("precedence", opts(ctx, 20_000, 5.0), merge_case);
    ctx.phase("configurations", opts(ctx, 2_000, 5.0), config_case);
    ctx.phase("timeouts", PhaseOpts { cases: 8, threads: 8, max_s: 60.0 }, timeout_case);
    ctx.phase("http", opts(ctx, 3_000, 25.0), |c| http_case(c, false));
    ctx.phase("http many", PhaseOpts { cases: ctx.n(40), threads: 4, max_s: ctx.secs(12.0) }, |c| http_case(c, true));
    ctx.phase("aws", opts(ctx, 2_000, 20.0), aws_case);
}
