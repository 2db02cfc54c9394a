//! Model of Clarity values: terms, canonical encoding, strict decoding, literal text;
//! and the bridge to and from the implementation's values.

use crate::refs;
use stacks_rs::clarity::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Int(i128),
    UInt(u128),
    Buf(Vec<u8>),
    True,
    False,
    Std(String),
    Con(String, String),
    Ok(Box<T>),
    Err(Box<T>),
    None,
    Some(Box<T>),
    List(Vec<T>),
    Tup(Vec<(String, T)>),
    Ascii(String),
    Utf8(String),
}

pub type Dyn = Box<dyn Clarity>;

pub fn tag(t: &T) -> u8 {
    match t {
        T::Int(_) => 0,
        T::UInt(_) => 1,
        T::Buf(_) => 2,
        T::True => 3,
        T::False => 4,
        T::Std(_) => 5,
        T::Con(..) => 6,
        T::Ok(_) => 7,
        T::Err(_) => 8,
        T::None => 9,
        T::Some(_) => 10,
        T::List(_) => 11,
        T::Tup(_) => 12,
        T::Ascii(_) => 13,
        T::Utf8(_) => 14,
    }
}

/// Builds the implementation value.
pub fn build(t: &T) -> Dyn {
    match t {
        T::Int(x) => Box::new(Int::new(*x)),
        T::UInt(x) => Box::new(UInt::new(*x)),
        T::Buf(b) => Box::new(Buffer::new(b.clone())),
        T::True => Box::new(True::new()),
        T::False => Box::new(False::new()),
        T::Std(a) => Box::new(PrincipalStandard::new(a.clone())),
        T::Con(a, n) => Box::new(PrincipalContract::new((a.clone(), n.clone()))),
        T::Ok(v) => Box::new(ResponseOk::new(build(v))),
        T::Err(v) => Box::new(ResponseErr::new(build(v))),
        T::None => Box::new(OptionalNone::new()),
        T::Some(v) => Box::new(OptionalSome::new(build(v))),
        T::List(v) => Box::new(List::new(v.iter().map(build).collect())),
        T::Tup(v) => Box::new(Tuple::new(v.iter().map(|(k, x)| (k.clone(), build(x))).collect())),
        T::Ascii(s) => Box::new(StringAscii::new(s.clone())),
        T::Utf8(s) => Box::new(StringUtf8::new(s.clone())),
    }
}

pub fn build_args(v: &[T]) -> FnArguments {
    FnArguments::new(v.iter().map(build).collect())
}

/// Reads an implementation value back, through its type and content accessors.
pub fn reify(v: &dyn Clarity) -> Option<T> {
    let a = v.as_any();
    Some(if let Some(x) = a.downcast_ref::<Int>() {
        T::Int(*x.value())
    } else if let Some(x) = a.downcast_ref::<UInt>() {
        T::UInt(*x.value())
    } else if let Some(x) = a.downcast_ref::<Buffer>() {
        T::Buf(x.value().clone())
    } else if let Some(x) = a.downcast_ref::<True>() {
        if !*x.value() {
            return None;
        }
        T::True
    } else if let Some(x) = a.downcast_ref::<False>() {
        if *x.value() {
            return None;
        }
        T::False
    } else if let Some(x) = a.downcast_ref::<PrincipalStandard>() {
        T::Std(x.value().clone())
    } else if let Some(x) = a.downcast_ref::<PrincipalContract>() {
        T::Con(x.value().0.clone(), x.value().1.clone())
    } else if let Some(x) = a.downcast_ref::<ResponseOk>() {
        T::Ok(Box::new(reify(x.value().as_ref())?))
    } else if let Some(x) = a.downcast_ref::<ResponseErr>() {
        T::Err(Box::new(reify(x.value().as_ref())?))
    } else if a.downcast_ref::<OptionalNone>().is_some() {
        T::None
    } else if let Some(x) = a.downcast_ref::<OptionalSome>() {
        T::Some(Box::new(reify(x.value().as_ref())?))
    } else if let Some(x) = a.downcast_ref::<List>() {
        T::List(x.value().iter().map(|e| reify(e.as_ref())).collect::<Option<_>>()?)
    } else if let Some(x) = a.downcast_ref::<Tuple>() {
        T::Tup(x.value().iter().map(|(k, e)| Some((k.clone(), reify(e.as_ref())?))).collect::<Option<_>>()?)
    } else if let Some(x) = a.downcast_ref::<StringAscii>() {
        T::Ascii(x.value().clone())
    } else if let Some(x) = a.downcast_ref::<StringUtf8>() {
        T::Utf8(x.value().clone())
    } else {
        return None;
    })
}

pub fn reify_args(a: &FnArguments) -> Option<Vec<T>> {
    a.value().iter().map(|e| reify(e.as_ref())).collect()
}

fn name_into(s: &str, out: &mut Vec<u8>) -> bool {
    if s.len() > 128 {
        return false;
    }
    out.push(s.len() as u8);
    out.extend(s.as_bytes());
    true
}

pub fn enc_name(s: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    name_into(s, &mut v).then_some(v)
}

/// The canonical encoding, or None where there is none.
pub fn enc(t: &T) -> Option<Vec<u8>> {
    let mut v = vec![];
    enc_into(t, &mut v).then_some(v)
}

pub fn enc_args(a: &[T]) -> Option<Vec<u8>> {
    let mut v = (a.len() as u32).to_be_bytes().to_vec();
    a.iter().all(|t| enc_into(t, &mut v)).then_some(v)
}

pub fn enc_into(t: &T, o: &mut Vec<u8>) -> bool {
    o.push(tag(t));
    let blob = |o: &mut Vec<u8>, b: &[u8]| {
        o.extend((b.len() as u32).to_be_bytes());
        o.extend(b);
    };
    match t {
        T::Int(x) => o.extend(x.to_be_bytes()),
        T::UInt(x) => o.extend(x.to_be_bytes()),
        T::Buf(b) => blob(o, b),
        T::True | T::False | T::None => {}
        T::Std(a) => match refs::address_dec(a) {
            Some((h, v)) => {
                o.push(v);
                o.extend(h);
            }
            None => return false,
        },
        T::Con(a, n) => match refs::address_dec(a) {
            Some((h, v)) => {
                o.push(v);
                o.extend(h);
                return name_into(n, o);
            }
            None => return false,
        },
        T::Ok(v) | T::Err(v) | T::Some(v) => return enc_into(v, o),
        T::List(v) => {
            o.extend((v.len() as u32).to_be_bytes());
            return v.iter().all(|x| enc_into(x, o));
        }
        T::Tup(v) => {
            o.extend((v.len() as u32).to_be_bytes());
            let mut e: Vec<&(String, T)> = v.iter().collect();
            e.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            return e.iter().all(|(k, x)| name_into(k, o) && enc_into(x, o));
        }
        T::Ascii(s) => {
            if s.bytes().any(|b| b > 127) {
                return false;
            }
            blob(o, s.as_bytes());
        }
        T::Utf8(s) => blob(o, s.as_bytes()),
    }
    true
}

fn take<'a>(b: &'a [u8], at: &mut usize, n: usize) -> Option<&'a [u8]> {
    let r = b.get(*at..at.checked_add(n)?)?;
    *at += n;
    Some(r)
}
fn u32_at(b: &[u8], at: &mut usize) -> Option<usize> {
    Some(u32::from_be_bytes(take(b, at, 4)?.try_into().unwrap()) as usize)
}
pub fn dec_name(b: &[u8], at: &mut usize) -> Option<String> {
    let n = take(b, at, 1)?[0] as usize;
    if n > 128 {
        return None;
    }
    refs::utf8(take(b, at, n)?)
}
fn dec_addr(b: &[u8], at: &mut usize) -> Option<String> {
    let v = take(b, at, 1)?[0];
    refs::address(take(b, at, 20)?, v)
}

/// Strict decoding of a leading value. Tuple entries stay in wire order.
pub fn dec(b: &[u8]) -> Option<(T, usize)> {
    let mut at = 0;
    let t = dec_at(b, &mut at)?;
    Some((t, at))
}

pub fn dec_args(b: &[u8]) -> Option<(Vec<T>, usize)> {
    let mut at = 0;
    let n = u32_at(b, &mut at)?;
    let mut v = vec![];
    for _ in 0..n {
        v.push(dec_at(b, &mut at)?);
    }
    Some((v, at))
}

pub fn dec_at(b: &[u8], at: &mut usize) -> Option<T> {
    let tag = take(b, at, 1)?[0];
    Some(match tag {
        0 => T::Int(i128::from_be_bytes(take(b, at, 16)?.try_into().unwrap())),
        1 => T::UInt(u128::from_be_bytes(take(b, at, 16)?.try_into().unwrap())),
        2 => {
            let n = u32_at(b, at)?;
            T::Buf(take(b, at, n)?.to_vec())
        }
        3 => T::True,
        4 => T::False,
        5 => T::Std(dec_addr(b, at)?),
        6 => {
            let a = dec_addr(b, at)?;
            T::Con(a, dec_name(b, at)?)
        }
        7 => T::Ok(Box::new(dec_at(b, at)?)),
        8 => T::Err(Box::new(dec_at(b, at)?)),
        9 => T::None,
        10 => T::Some(Box::new(dec_at(b, at)?)),
        11 => {
            let n = u32_at(b, at)?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(dec_at(b, at)?);
            }
            T::List(v)
        }
        12 => {
            let n = u32_at(b, at)?;
            let mut v = vec![];
            for _ in 0..n {
                let k = dec_name(b, at)?;
                v.push((k, dec_at(b, at)?));
            }
            T::Tup(v)
        }
        13 => {
            let n = u32_at(b, at)?;
            let s = take(b, at, n)?;
            if s.iter().any(|c| *c > 127) {
                return None;
            }
            T::Ascii(refs::utf8(s)?)
        }
        14 => {
            let n = u32_at(b, at)?;
            T::Utf8(refs::utf8(take(b, at, n)?)?)
        }
        _ => return None,
    })
}

/// Does any tuple in the term repeat a key? (Unspecified territory for decoders.)
pub fn has_dup(t: &T) -> bool {
    match t {
        T::Ok(v) | T::Err(v) | T::Some(v) => has_dup(v),
        T::List(v) => v.iter().any(has_dup),
        T::Tup(v) => {
            let mut k: Vec<&String> = v.iter().map(|(k, _)| k).collect();
            k.sort();
            k.windows(2).any(|w| w[0] == w[1]) || v.iter().any(|(_, x)| has_dup(x))
        }
        _ => false,
    }
}

/// Identity of the denoted value: tuple entries sorted, principals by bytes.
pub fn canon(t: &T) -> T {
    match t {
        T::Ok(v) => T::Ok(Box::new(canon(v))),
        T::Err(v) => T::Err(Box::new(canon(v))),
        T::Some(v) => T::Some(Box::new(canon(v))),
        T::List(v) => T::List(v.iter().map(canon).collect()),
        T::Tup(v) => {
            let mut e: Vec<(String, T)> = v.iter().map(|(k, x)| (k.clone(), canon(x))).collect();
            e.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            T::Tup(e)
        }
        T::Std(a) => T::Std(canon_addr(a)),
        T::Con(a, n) => T::Con(canon_addr(a), n.clone()),
        other => other.clone(),
    }
}
fn canon_addr(a: &str) -> String {
    match refs::address_dec(a) {
        Some((h, v)) => refs::address(&h, v).unwrap(),
        None => a.to_string(),
    }
}

/// The Clarity literal.
pub fn text(t: &T) -> String {
    match t {
        T::Int(x) => dec_text(x.unsigned_abs(), *x < 0),
        T::UInt(x) => format!("u{}", dec_text(*x, false)),
        T::Buf(b) => format!("0x{}", refs::hexs(b)),
        T::True => "true".into(),
        T::False => "false".into(),
        T::Std(a) => a.clone(),
        T::Con(a, n) => [a.as_str(), n.as_str()].join("."),
        T::Ok(v) => format!("(ok {})", text(v)),
        T::Err(v) => format!("(err {})", text(v)),
        T::None => "none".into(),
        T::Some(v) => format!("(some {})", text(v)),
        T::List(v) => format!("(list {})", v.iter().map(text).collect::<Vec<_>>().join(" ")),
        T::Tup(v) => format!(
            "(tuple {})",
            v.iter().map(|(k, x)| format!("({k} {})", text(x))).collect::<Vec<_>>().join(" ")
        ),
        T::Ascii(s) => format!("\"{s}\""),
        T::Utf8(s) => format!("u\"{s}\""),
    }
}

fn dec_text(mut x: u128, neg: bool) -> String {
    let mut d = vec![];
    loop {
        d.push(b'0' + (x % 10) as u8);
        x /= 10;
        if x == 0 {
            break;
        }
    }
    if neg {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}

pub fn show(t: &T) -> String {
    let s = format!("{t:?}");
    crate::engine::short(&s)
}

// ------------------------------------------------------------------ spaces of terms

/// All terms over `leaves` with nesting depth <= `depth`, containers of width <= `width`,
/// tuple keys drawn without repetition from `keys` in every order.
pub struct Space {
    leaves: Vec<T>,
    keys: Vec<String>,
    width: usize,
    key_orders: Vec<Vec<Vec<usize>>>, // by width
    counts: Vec<u64>,                 // by depth
}

impl Space {
    pub fn new(leaves: Vec<T>, keys: &[&str], width: usize, depth: usize) -> Self {
        let keys: Vec<String> = keys.iter().map(|s| s.to_string()).collect();
        let mut key_orders = vec![vec![vec![]]];
        for w in 1..=width {
            let mut o = vec![];
            for p in &key_orders[w - 1] {
                for k in 0..keys.len() {
                    if !p.contains(&k) {
                        let mut q = p.clone();
                        q.push(k);
                        o.push(q);
                    }
                }
            }
            key_orders.push(o);
        }
        let mut s = Space { leaves, keys, width, key_orders, counts: vec![] };
        s.counts.push(s.leaves.len() as u64);
        for d in 1..=depth {
            let c = s.counts[d - 1];
            let mut n = s.leaves.len() as u64 + 3 * c;
            for w in 0..=width {
                n += c.pow(w as u32) * (1 + s.key_orders[w].len() as u64);
            }
            s.counts.push(n);
        }
        s
    }
    pub fn count(&self) -> u64 {
        *self.counts.last().unwrap()
    }
    pub fn nth(&self, i: u64) -> T {
        self.at(self.counts.len() - 1, i)
    }
    fn at(&self, d: usize, mut i: u64) -> T {
        if i < self.leaves.len() as u64 {
            return self.leaves[i as usize].clone();
        }
        i -= self.leaves.len() as u64;
        let c = self.counts[d - 1];
        if i < 3 * c {
            let v = Box::new(self.at(d - 1, i % c));
            return match i / c {
                0 => T::Ok(v),
                1 => T::Err(v),
                _ => T::Some(v),
            };
        }
        i -= 3 * c;
        for w in 0..=self.width {
            let blk = c.pow(w as u32);
            let kinds = 1 + self.key_orders[w].len() as u64;
            if i < blk * kinds {
                let kind = i / blk;
                let mut r = i % blk;
                let mut elems = vec![];
                for _ in 0..w {
                    elems.push(self.at(d - 1, r % c));
                    r /= c;
                }
                return if kind == 0 {
                    T::List(elems)
                } else {
                    let ks = &self.key_orders[w][kind as usize - 1];
                    T::Tup(elems.into_iter().zip(ks).map(|(e, k)| (self.keys[*k].clone(), e)).collect())
                };
            }
            i -= blk * kinds;
        }
        unreachable!()
    }
}

pub const ADDR: &str = "SP2JXKMSH007NPYAQHKJPQMAQYAD90NQGTVJVQ02B";
pub const ADDR_T: &str = "STB44HYPYAT2BB2QE513NSP81HTMYWBJP02HPGK6";

/// One or two leaves of every leaf type, each with a distinct shape on the wire.
pub fn leaves() -> Vec<T> {
    vec![
        T::Int(-2),
        T::UInt(0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10),
        T::Buf(vec![]),
        T::Buf(vec![0x0c, 0, 0, 0, 1]),
        T::True,
        T::False,
        T::Std(ADDR.into()),
        T::Con(ADDR_T.into(), "n-1".into()),
        T::None,
        T::Ascii("a b".into()),
        T::Utf8("é".into()),
    ]
}

pub fn few_leaves() -> Vec<T> {
    vec![T::Int(1), T::Buf(vec![7]), T::None, T::Ascii("".into())]
}

/// Integers worth looking at: every one near zero, near every power of two and ten, and every
/// single-byte pattern.
pub fn int_bits(i: u64) -> Option<u128> {
    const NEAR: u64 = 1 << 17;
    if i < 2 * NEAR {
        return Some((i as i128 - NEAR as i128) as u128);
    }
    let i = i - 2 * NEAR;
    if i < 128 * 5 {
        return Some((1u128 << (i / 5)).wrapping_add((i % 5) as u128).wrapping_sub(2));
    }
    let i = i - 128 * 5;
    if i < 39 * 5 * 2 {
        let p = 10u128.pow((i / 10) as u32);
        let v = p.wrapping_add((i % 5) as u128).wrapping_sub(2);
        return Some(if i % 10 < 5 { v } else { v.wrapping_neg() });
    }
    let i = i - 39 * 5 * 2;
    if i < 16 * 256 * 4 {
        let (pos, byte, bg) = (i / 1024, i / 4 % 256, i % 4);
        let mut b = [[0u8, 0xff, 0x55, 0x80][bg as usize]; 16];
        b[pos as usize] = byte as u8;
        return Some(u128::from_be_bytes(b));
    }
    None
}
pub fn int_bits_count() -> u64 {
    (2 << 17) + 128 * 5 + 39 * 10 + 16 * 1024
}

/// Text of exactly `len` bytes built from characters `width` bytes wide (padded with 'z').
pub fn text_of(len: usize, width: usize) -> String {
    let c = ['a', 'é', '\u{20ac}', '\u{1f600}'][width - 1];
    let mut s: String = std::iter::repeat(c).take(len / width).collect();
    while s.len() < len {
        s.push('z');
    }
    s
}

/// A value whose encoding is about `n` bytes long.
pub fn big_leaf(kind: u64, n: usize) -> T {
    match kind {
        0 => T::Buf(refs::pattern(n, 5)),
        1 => T::Ascii(text_of(n, 1)),
        2 => T::Utf8(text_of(n, 3)),
        _ => T::List((0..n).map(|j| if j % 5 == 0 { T::True } else { T::None }).collect()),
    }
}
