//! Offline stand-in for https://github.com/fuchsnj/rust-farmhash: `fingerprint64` only
//! (farmhashna::Hash64 of google/farmhash). Pinned by the vectors of dd-sds's own tests.

const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;

fn f64_(s: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(s[i..i + 8].try_into().unwrap())
}
fn f32_(s: &[u8], i: usize) -> u64 {
    u32::from_le_bytes(s[i..i + 4].try_into().unwrap()) as u64
}
fn shift_mix(v: u64) -> u64 {
    v ^ (v >> 47)
}
fn hash_len_16(u: u64, v: u64, mul: u64) -> u64 {
    let mut a = (u ^ v).wrapping_mul(mul);
    a ^= a >> 47;
    let mut b = (v ^ a).wrapping_mul(mul);
    b ^= b >> 47;
    b.wrapping_mul(mul)
}
fn len_0_to_16(s: &[u8]) -> u64 {
    let len = s.len();
    if len >= 8 {
        let mul = K2.wrapping_add(len as u64 * 2);
        let a = f64_(s, 0).wrapping_add(K2);
        let b = f64_(s, len - 8);
        let c = b.rotate_right(37).wrapping_mul(mul).wrapping_add(a);
        let d = a.rotate_right(25).wrapping_add(b).wrapping_mul(mul);
        return hash_len_16(c, d, mul);
    }
    if len >= 4 {
        let mul = K2.wrapping_add(len as u64 * 2);
        let a = f32_(s, 0);
        return hash_len_16((len as u64).wrapping_add(a << 3), f32_(s, len - 4), mul);
    }
    if len > 0 {
        let a = s[0] as u32;
        let b = s[len >> 1] as u32;
        let c = s[len - 1] as u32;
        let y = a.wrapping_add(b << 8);
        let z = (len as u32).wrapping_add(c << 2);
        return shift_mix((y as u64).wrapping_mul(K2) ^ (z as u64).wrapping_mul(K0))
            .wrapping_mul(K2);
    }
    K2
}
fn len_17_to_32(s: &[u8]) -> u64 {
    let len = s.len();
    let mul = K2.wrapping_add(len as u64 * 2);
    let a = f64_(s, 0).wrapping_mul(K1);
    let b = f64_(s, 8);
    let c = f64_(s, len - 8).wrapping_mul(mul);
    let d = f64_(s, len - 16).wrapping_mul(K2);
    hash_len_16(
        a.wrapping_add(b).rotate_right(43).wrapping_add(c.rotate_right(30)).wrapping_add(d),
        a.wrapping_add(b.wrapping_add(K2).rotate_right(18)).wrapping_add(c),
        mul,
    )
}
fn weak32(w: u64, x: u64, y: u64, z: u64, a: u64, b: u64) -> (u64, u64) {
    let mut a = a.wrapping_add(w);
    let mut b = b.wrapping_add(a).wrapping_add(z).rotate_right(21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(a.rotate_right(44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
fn weak32s(s: &[u8], i: usize, a: u64, b: u64) -> (u64, u64) {
    weak32(f64_(s, i), f64_(s, i + 8), f64_(s, i + 16), f64_(s, i + 24), a, b)
}
fn len_33_to_64(s: &[u8]) -> u64 {
    let len = s.len();
    let mul = K2.wrapping_add(len as u64 * 2);
    let a = f64_(s, 0).wrapping_mul(K2);
    let b = f64_(s, 8);
    let c = f64_(s, len - 8).wrapping_mul(mul);
    let d = f64_(s, len - 16).wrapping_mul(K2);
    let y = a.wrapping_add(b).rotate_right(43).wrapping_add(c.rotate_right(30)).wrapping_add(d);
    let z = hash_len_16(y, a.wrapping_add(b.wrapping_add(K2).rotate_right(18)).wrapping_add(c), mul);
    let e = f64_(s, 16).wrapping_mul(mul);
    let f = f64_(s, 24);
    let g = y.wrapping_add(f64_(s, len - 32)).wrapping_mul(mul);
    let h = z.wrapping_add(f64_(s, len - 24)).wrapping_mul(mul);
    hash_len_16(
        e.wrapping_add(f).rotate_right(43).wrapping_add(g.rotate_right(30)).wrapping_add(h),
        e.wrapping_add(f.wrapping_add(a).rotate_right(18)).wrapping_add(g),
        mul,
    )
}

pub fn fingerprint64(s: &[u8]) -> u64 {
    let len = s.len();
    if len <= 16 {
        return len_0_to_16(s);
    }
    if len <= 32 {
        return len_17_to_32(s);
    }
    if len <= 64 {
        return len_33_to_64(s);
    }
    let seed: u64 = 81;
    let mut x = seed;
    let mut y = seed.wrapping_mul(K1).wrapping_add(113);
    let mut z = shift_mix(y.wrapping_mul(K2).wrapping_add(113)).wrapping_mul(K2);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    x = x.wrapping_mul(K2).wrapping_add(f64_(s, 0));
    let end = ((len - 1) / 64) * 64;
    let last64 = len - 64;
    let mut i = 0;
    loop {
        x = x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64_(s, i + 8)).rotate_right(37).wrapping_mul(K1);
        y = y.wrapping_add(v.1).wrapping_add(f64_(s, i + 48)).rotate_right(42).wrapping_mul(K1);
        x ^= w.1;
        y = y.wrapping_add(v.0).wrapping_add(f64_(s, i + 40));
        z = z.wrapping_add(w.0).rotate_right(33).wrapping_mul(K1);
        v = weak32s(s, i, v.1.wrapping_mul(K1), x.wrapping_add(w.0));
        w = weak32s(s, i + 32, z.wrapping_add(w.1), y.wrapping_add(f64_(s, i + 16)));
        std::mem::swap(&mut z, &mut x);
        i += 64;
        if i == end {
            break;
        }
    }
    let mul = K1.wrapping_add((z & 0xff) << 1);
    i = last64;
    w.0 = w.0.wrapping_add(((len - 1) & 63) as u64);
    v.0 = v.0.wrapping_add(w.0);
    w.0 = w.0.wrapping_add(v.0);
    x = x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64_(s, i + 8)).rotate_right(37).wrapping_mul(mul);
    y = y.wrapping_add(v.1).wrapping_add(f64_(s, i + 48)).rotate_right(42).wrapping_mul(mul);
    x ^= w.1.wrapping_mul(9);
    y = y.wrapping_add(v.0.wrapping_mul(9)).wrapping_add(f64_(s, i + 40));
    z = z.wrapping_add(w.0).rotate_right(33).wrapping_mul(mul);
    v = weak32s(s, i, v.1.wrapping_mul(mul), x.wrapping_add(w.0));
    w = weak32s(s, i + 32, z.wrapping_add(w.1), y.wrapping_add(f64_(s, i + 16)));
    std::mem::swap(&mut z, &mut x);
    hash_len_16(
        hash_len_16(v.0, w.0, mul).wrapping_add(shift_mix(y).wrapping_mul(K0)).wrapping_add(z),
        hash_len_16(v.1, w.1, mul).wrapping_add(x),
        mul,
    )
}

#[cfg(test)]
mod test {
    use super::fingerprint64 as f;
    #[test]
    fn vectors() {
        assert_eq!(f(b"coty"), 0xfdf7528ad7f83901);
        assert_eq!(f(b"rene"), 0x51a2842f626aaaec);
        assert_eq!(f("😊".as_bytes()), 0x6ce17744696c2107);
        assert_eq!(f("x".repeat(128).as_bytes()), 0x5170af09fd870c17);
    }
}
