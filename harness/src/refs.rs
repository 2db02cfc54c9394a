//! Reference models, written from the specifications and independent of the code under test:
//! Base58, Crockford base 32 / c32check, digests.

use ripemd::Ripemd160;
use sha2::{Digest, Sha256, Sha512_256};

pub fn sha256(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
pub fn dsha256(b: &[u8]) -> Vec<u8> {
    sha256(&sha256(b))
}
pub fn sha512_256(b: &[u8]) -> Vec<u8> {
    Sha512_256::digest(b).to_vec()
}
pub fn hash160(b: &[u8]) -> Vec<u8> {
    Ripemd160::digest(sha256(b)).to_vec()
}
pub fn hexs(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

/// Number given by digits (most significant first) in base `from`, as digits in base `to`,
/// without leading zeros. Schoolbook multiply-and-add.
pub fn rebase(digits: &[u8], from: u32, to: u32) -> Vec<u8> {
    let mut out: Vec<u8> = vec![]; // least significant first
    for &d in digits {
        let mut carry = d as u32;
        for o in out.iter_mut() {
            let v = *o as u32 * from + carry;
            *o = (v % to) as u8;
            carry = v / to;
        }
        while carry > 0 {
            out.push((carry % to) as u8);
            carry /= to;
        }
    }
    out.reverse();
    out
}

const B58: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn b58_enc(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let al: Vec<char> = B58.chars().collect();
    let mut s = "1".repeat(zeros);
    s.extend(rebase(&b[zeros..], 256, 58).iter().map(|d| al[*d as usize]));
    s
}

pub fn b58_dec(s: &str) -> Option<Vec<u8>> {
    let mut digits = vec![];
    for c in s.chars() {
        digits.push(B58.chars().position(|a| a == c)? as u8);
    }
    let zeros = digits.iter().take_while(|x| **x == 0).count();
    let mut out = vec![0; zeros];
    out.extend(rebase(&digits[zeros..], 58, 256));
    Some(out)
}

pub fn b58check_enc(payload: &[u8], version: u8) -> String {
    let mut v = vec![version];
    v.extend(payload);
    let c = dsha256(&v);
    v.extend(&c[..4]);
    b58_enc(&v)
}

pub fn b58check_dec(s: &str) -> Option<(Vec<u8>, u8)> {
    let b = b58_dec(s)?;
    if b.len() < 5 {
        return None;
    }
    let (body, sum) = b.split_at(b.len() - 4);
    (dsha256(body)[..4] == *sum).then(|| (body[1..].to_vec(), body[0]))
}

pub const C32: &str = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";

pub fn c32_enc(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let al: Vec<char> = C32.chars().collect();
    let mut s = "0".repeat(zeros);
    s.extend(rebase(&b[zeros..], 256, 32).iter().map(|d| al[*d as usize]));
    s
}

fn c32_digit(c: char) -> Option<u8> {
    let c = match c {
        'O' | 'o' => '0',
        'I' | 'i' | 'L' | 'l' => '1',
        c => c.to_ascii_uppercase(),
    };
    C32.chars().position(|a| a == c).map(|p| p as u8)
}

pub fn c32_dec(s: &str) -> Option<Vec<u8>> {
    let digits: Option<Vec<u8>> = s.chars().map(c32_digit).collect();
    let digits = digits?;
    let zeros = digits.iter().take_while(|x| **x == 0).count();
    let mut out = vec![0; zeros];
    out.extend(rebase(&digits[zeros..], 32, 256));
    Some(out)
}

pub fn c32check_enc(payload: &[u8], version: u8) -> Option<String> {
    let sym = C32.chars().nth(version as usize)?;
    let mut v = vec![version];
    v.extend(payload);
    let sum = dsha256(&v);
    let mut data = payload.to_vec();
    data.extend(&sum[..4]);
    Some(format!("{sym}{}", c32_enc(&data)))
}

pub fn c32check_dec(s: &str) -> Option<(Vec<u8>, u8)> {
    let mut it = s.chars();
    let version = c32_digit(it.next()?)?;
    let data = c32_dec(it.as_str())?;
    if data.len() < 4 {
        return None;
    }
    let (body, sum) = data.split_at(data.len() - 4);
    let mut v = vec![version];
    v.extend(body);
    (dsha256(&v)[..4] == *sum).then(|| (body.to_vec(), version))
}

pub const VERSIONS: [u8; 4] = [22, 20, 26, 21];

pub fn address(hash: &[u8], version: u8) -> Option<String> {
    if !VERSIONS.contains(&version) {
        return None;
    }
    Some(format!("S{}", c32check_enc(hash, version)?))
}

pub fn address_dec(s: &str) -> Option<(Vec<u8>, u8)> {
    let rest = s.strip_prefix('S')?;
    let (h, v) = c32check_dec(rest)?;
    (h.len() == 20 && VERSIONS.contains(&v)).then_some((h, v))
}

/// Strict UTF-8 (RFC 3629), written out.
pub fn utf8(b: &[u8]) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        let a = b[i];
        let (n, min, mut cp) = match a {
            0..=0x7f => (0, 0, a as u32),
            0xc2..=0xdf => (1, 0x80, (a & 0x1f) as u32),
            0xe0..=0xef => (2, 0x800, (a & 0x0f) as u32),
            0xf0..=0xf4 => (3, 0x10000, (a & 0x07) as u32),
            _ => return None,
        };
        for k in 1..=n {
            let c = *b.get(i + k)?;
            if c & 0xc0 != 0x80 {
                return None;
            }
            cp = cp << 6 | (c & 0x3f) as u32;
        }
        if cp < min {
            return None;
        }
        s.push(char::from_u32(cp)?);
        i += n + 1;
    }
    Some(s)
}

/// The m-of-n script and its hashes.
pub fn multisig_script(m: u8, keys: &[Vec<u8>]) -> Vec<u8> {
    let mut s = vec![0x50 + m];
    for k in keys {
        s.push(k.len() as u8);
        s.extend(k);
    }
    s.push(0x50 + keys.len() as u8);
    s.push(0xae);
    s
}
pub fn p2sh(m: u8, keys: &[Vec<u8>]) -> Vec<u8> {
    hash160(&multisig_script(m, keys))
}
pub fn p2wsh(m: u8, keys: &[Vec<u8>]) -> Vec<u8> {
    let mut w = vec![0x00, 0x20];
    w.extend(sha256(&multisig_script(m, keys)));
    hash160(&w)
}
pub fn p2wpkh(key: &[u8]) -> Vec<u8> {
    let mut w = vec![0x00, 0x14];
    w.extend(hash160(key));
    hash160(&w)
}

/// All single-edit neighbours of a text over an alphabet: substitutions, insertions, deletions,
/// adjacent transpositions. `nth` enumerates them without materialising.
pub struct Edits {
    pub chars: Vec<char>,
    pub alpha: Vec<char>,
}
impl Edits {
    pub fn new(s: &str, alpha: &[char]) -> Self {
        Edits { chars: s.chars().collect(), alpha: alpha.to_vec() }
    }
    pub fn count(&self) -> u64 {
        let (l, a) = (self.chars.len() as u64, self.alpha.len() as u64);
        l * a + (l + 1) * a + l + l.saturating_sub(1)
    }
    pub fn nth(&self, mut i: u64) -> String {
        let (l, a) = (self.chars.len() as u64, self.alpha.len() as u64);
        let mut c = self.chars.clone();
        if i < l * a {
            c[(i / a) as usize] = self.alpha[(i % a) as usize];
        } else {
            i -= l * a;
            if i < (l + 1) * a {
                c.insert((i / a) as usize, self.alpha[(i % a) as usize]);
            } else {
                i -= (l + 1) * a;
                if i < l {
                    c.remove(i as usize);
                } else {
                    i -= l;
                    c.swap(i as usize, i as usize + 1);
                }
            }
        }
        c.into_iter().collect()
    }
}

/// Characters that text handling tends to treat specially, and all up to U+024F.
pub fn odd_chars() -> Vec<char> {
    (0..0x250)
        .filter_map(char::from_u32)
        .chain("\u{300}\u{2000}\u{200b}\u{200d}\u{2028}\u{2029}\u{20ac}\u{3000}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".chars())
        .collect()
}
/// Texts with a character alone, first, last, inside and doubled.
pub fn placed(c: char) -> [String; 6] {
    [c.to_string(), format!("{c}a"), format!("a{c}"), format!("a{c}B"), format!("{c}{c}"), format!("{c}a{c}")]
}

/// The i-th string over `alpha` with length 0..=max in shortlex order.
pub fn nth_word<T: Clone>(alpha: &[T], mut i: u64) -> Vec<T> {
    let k = alpha.len() as u64;
    let mut len = 0;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        block *= k;
        len += 1;
    }
    let mut out = vec![];
    for _ in 0..len {
        block /= k;
        out.push(alpha[(i / block) as usize].clone());
        i %= block;
    }
    out
}
pub fn words(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

pub fn nth_bytes(i: u64) -> Vec<u8> {
    thread_local!(static A: Vec<u8> = (0..=255).collect());
    A.with(|a| nth_word(a, i))
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Byte string patterns of a given length.
pub const PATTERNS: u64 = 6;
pub fn pattern(len: usize, p: u64) -> Vec<u8> {
    (0..len)
        .map(|i| match p {
            0 => 0x00,
            1 => 0xff,
            2 => (i * 7 + 3) as u8,
            3 => {
                if i + 1 == len {
                    1
                } else {
                    0
                }
            }
            4 => {
                if i == 0 {
                    0x80
                } else {
                    0
                }
            }
            _ => (i as u32).wrapping_mul(2654435761).rotate_left(11) as u8,
        })
        .collect()
}
