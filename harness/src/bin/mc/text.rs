//! C07..C10: Base58, C32, hex, digests.

use harness::engine::*;
use harness::refs::*;
use secp256k1::{PublicKey, Secp256k1, SecretKey};
use stacks_rs::crypto::c32::{hash_p2pkh, hash_p2sh, hash_p2wpkh, hash_p2wsh, Address};
use stacks_rs::crypto::hex::HexIterator;
use stacks_rs::crypto::*;
use std::str::FromStr;

pub fn registry() -> Registry {
    vec![("C07", c07), ("C08", c08), ("C09", c09), ("C10", c10)]
}

fn assume(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn ascii(i: u64) -> String {
    thread_local!(static A: Vec<char> = (0..128u8).map(char::from).collect());
    A.with(|a| nth_word(a, i)).into_iter().collect()
}

/// Every Unicode scalar, alone and inside valid text.
fn scalar_texts(i: u64, valid: &str) -> Option<String> {
    let c = char::from_u32((i / 4) as u32)?;
    let mid = valid.len() / 2;
    Some(match i % 4 {
        0 => c.to_string(),
        1 => format!("{c}{valid}"),
        2 => format!("{}{c}{}", &valid[..mid], &valid[mid..]),
        _ => format!("{valid}{c}"),
    })
}

/// Byte strings: leading zeros x tail length x pattern.
fn zeros_and_tail(i: u64, z: u64, l: u64) -> Vec<u8> {
    let mut b = vec![0; (i % z) as usize];
    b.extend(pattern((i / z % l) as usize, i / z / l));
    b
}

/// Bit flips of a byte string: every single and every pair.
fn flips(n: u64) -> u64 {
    n + n * (n - 1) / 2
}
fn flip(b: &mut [u8], mut i: u64) {
    let n = b.len() as u64 * 8;
    let mut fl = |k: u64| b[(k / 8) as usize] ^= 1 << (k % 8);
    if i < n {
        fl(i);
        return;
    }
    i -= n;
    let mut p = 0;
    while i >= n - 1 - p {
        i -= n - 1 - p;
        p += 1;
    }
    fl(p);
    fl(p + 1 + i);
}

/// The i-th order of four things.
fn order4(i: u64) -> [usize; 4] {
    let mut left = vec![0, 1, 2, 3];
    let mut out = [0; 4];
    let mut r = i;
    for (k, o) in out.iter_mut().enumerate() {
        let n = 4 - k as u64;
        *o = left.remove((r % n) as usize);
        r /= n;
    }
    out
}

// ------------------------------------------------------------------ C07

fn b58_bytes(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    ctx.state(b);
    let want = b58_enc(b);
    ctx.sample(|| format!("{} <-> {want}", short(&hexs(b))));
    let got = ctx.sut("b58_encode", || b58_encode(b))?;
    ctx.same("b58_encode", &got, &want)?;
    let back = ctx.try_sut("b58_decode", || b58_decode(want.as_str()))?;
    ctx.same("b58_decode of encoding", &back.ok().as_deref(), &Some(b))
}

fn b58_text(ctx: &mut Ctx, s: &str) -> Result<(), String> {
    ctx.state(s.as_bytes());
    let got = ctx.try_sut("b58_decode", || b58_decode(s))?;
    ctx.same("b58_decode", &got.ok(), &b58_dec(s))?;
    let got = ctx.try_sut("base58check_decode", || base58check_decode(s))?;
    ctx.same("base58check_decode", &got.ok(), &b58check_dec(s))
}

fn c07(tier: Tier) -> Check {
    let on = |b: &[u8], m: String| format!("bytes {}: {m}", short(&hexs(b)));
    let ot = |s: &str, m: String| format!("text {}: {m}", short(&s));
    let lb = tier.pick(2, 3);
    let la = tier.pick(3, 4);
    let lz = tier.pick(130u64, 320);
    const AL: [char; 9] = ['1', '2', 'z', 'Z', 'A', '0', 'l', 'é', '\u{100}'];
    let lw = tier.pick(6, 8);
    let valid = "1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa";
    let probe: Vec<char> = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl .é".chars().collect();
    let targets: Vec<Edits> = [valid.to_string(), b58check_enc(&[], 0), b58check_enc(&[0; 20], 0), b58check_enc(&[0xff; 20], 255), b58check_enc(b"x", 5)]
        .iter()
        .map(|s| Edits::new(s, &probe))
        .collect();
    let counts: Vec<u64> = targets.iter().map(Edits::count).collect();
    let raw: Vec<Vec<u8>> = [(vec![0u8; 20], 0u8), (pattern(20, 2), 5), (vec![], 111), (pattern(33, 1), 128)]
        .iter()
        .map(|(p, v)| {
            let mut b = vec![*v];
            b.extend(p);
            let c = dsha256(&b);
            b.extend(&c[..4]);
            b
        })
        .collect();
    let raw_counts: Vec<u64> = raw.iter().map(|b| flips(b.len() as u64 * 8)).collect();
    let stages = vec![
        stage("bytes-all", words(256, lb), format!("every byte string of <= {lb} bytes"), move |ctx, i| {
            let b = nth_bytes(i);
            b58_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("bytes-lengths", 40 * lz * PATTERNS, format!("0..39 leading zeros x tails of 0..{lz} bytes x 6 patterns"), move |ctx, i| {
            let b = zeros_and_tail(i, 40, lz);
            b58_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("bytes-long", tier.pick(1040 - 130, 2060 - 130) * 3, "every length up to 1040 (thorough 2060) x 3 patterns", move |ctx, i| {
            let b = pattern(130 + (i / 3) as usize, [1, 2, 5][(i % 3) as usize]);
            b58_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("check-long", 300 * 4, "checksummed payloads of 0..300 bytes x 4 versions", move |ctx, i| {
            let (v, b) = ([0u8, 5, 111, 255][(i % 4) as usize], pattern((i / 4) as usize, i % PATTERNS));
            let want = b58check_enc(&b, v);
            let got = ctx.sut("base58check_encode", || base58check_encode(&b, v))?;
            ctx.same("base58check_encode", &got, &want).map_err(|m| on(&b, m))?;
            b58_text(ctx, &want).map_err(|m| ot(&want, m))
        }),
        stage("check-orders", 40 * 4, "payloads of 0..40 bytes x 4 versions, checksum bytes in every order", move |ctx, i| {
            let (v, l) = ([0u8, 5, 111, 255][(i % 4) as usize], (i / 4) as usize);
            let mut raw = vec![v];
            raw.extend(pattern(l, 2));
            let c = dsha256(&raw);
            for o in 0..24u64 {
                let mut b = raw.clone();
                b.extend(order4(o).map(|k| c[k]));
                let s = b58_enc(&b);
                b58_text(ctx, &s).map_err(|m| ot(&s, m))?;
            }
            Ok(())
        }),
        stage("text-ascii", words(128, la), format!("every ASCII text of <= {la} characters"), move |ctx, i| {
            let s = ascii(i);
            b58_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("text-scalars", 0x110000 * 4, "every Unicode scalar alone and before, inside and after a valid text", move |ctx, i| {
            let Some(s) = scalar_texts(i, valid) else { return Ok(()) };
            b58_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("text-words", words(9, lw), format!("every word of <= {lw} letters over 9 (zero digit, top digit, non-members)"), move |ctx, i| {
            let s: String = nth_word(&AL, i).into_iter().collect();
            b58_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("text-runs", 60 * 160 * 3, "0..59 ones then 0..159 equal digits (lowest, middle, highest)", move |ctx, i| {
            let s = format!("{}{}", "1".repeat((i % 60) as usize), ["2", "T", "z"][(i / 9600) as usize].repeat((i / 60 % 160) as usize));
            b58_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("check-encode", 256 * 70 * PATTERNS, "Base58Check: every version x payloads of 0..69 bytes x 6 patterns", move |ctx, i| {
            let (v, l, p) = ((i % 256) as u8, (i / 256 % 70) as usize, i / 256 / 70);
            let b = pattern(l, p);
            let want = b58check_enc(&b, v);
            ctx.state(want.as_bytes());
            let got = ctx.sut("base58check_encode", || base58check_encode(&b, v))?;
            ctx.same("base58check_encode", &got, &want).map_err(|m| on(&b, m))?;
            let back = ctx.try_sut("base58check_decode", || base58check_decode(want.as_str()))?;
            ctx.same("base58check_decode of encoding", &back.ok(), &Some((b.clone(), v))).map_err(|m| on(&b, m))
        }),
        stage("check-edits", counts.iter().sum(), "every single edit (66-character alphabet) of 5 Base58Check texts", move |ctx, mut i| {
            let mut k = 0;
            while i >= counts[k] {
                i -= counts[k];
                k += 1;
            }
            let s = targets[k].nth(i);
            b58_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("check-flips", raw_counts.iter().sum(), "every one- and two-bit corruption of 4 Base58Check payloads", move |ctx, mut i| {
            let mut k = 0;
            while i >= raw_counts[k] {
                i -= raw_counts[k];
                k += 1;
            }
            let mut b = raw[k].clone();
            flip(&mut b, i);
            let s = b58_enc(&b);
            b58_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("check-short", 256 * 257 * 2, "Base58Check texts of raw strings with valid checksum over 0, 1 and 2 bytes, and checksum only", move |ctx, i| {
            let body = if i < 65792 { nth_bytes(i) } else { return Ok(()) };
            let mut b = body.clone();
            let c = dsha256(&body);
            b.extend(&c[..4]);
            let s = b58_enc(&b);
            b58_text(ctx, &s).map_err(|m| ot(&s, m))?;
            let s = b58_enc(&b[..b.len() - 1]);
            b58_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
    ];
    Check {
        id: "C07",
        rule: "one case = one byte string or text; encoders and decoders compared with a schoolbook base-conversion model, panics caught",
        assumptions: assume(&["inputs outside the enumerated families behave like their neighbours", "SHA-256 of the sha2 crate is correct"]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C08

fn c32_bytes(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    ctx.state(b);
    let want = c32_enc(b);
    ctx.sample(|| format!("{} <-> {want}", short(&hexs(b))));
    let got = ctx.try_sut("c32_encode", || c32_encode(b))?;
    ctx.same("c32_encode", &got.ok().as_ref(), &Some(&want))?;
    let back = ctx.try_sut("c32_decode", || c32_decode(want.as_str()))?;
    ctx.same("c32_decode of encoding", &back.ok().as_deref(), &Some(b))?;
    let low = want.to_lowercase();
    let back = ctx.try_sut("c32_decode", || c32_decode(low.as_str()))?;
    ctx.same("c32_decode of lowercase encoding", &back.ok().as_deref(), &Some(b))
}

fn c32_text(ctx: &mut Ctx, s: &str) -> Result<(), String> {
    ctx.state(s.as_bytes());
    let got = ctx.try_sut("c32_decode", || c32_decode(s))?;
    ctx.same("c32_decode", &got.ok(), &c32_dec(s))?;
    let got = ctx.try_sut("c32check_decode", || c32check_decode(s))?;
    ctx.same("c32check_decode", &got.ok(), &c32check_dec(s))?;
    addr_text(ctx, s)
}

fn addr_text(ctx: &mut Ctx, s: &str) -> Result<(), String> {
    let want = address_dec(s);
    let got = ctx.try_sut("c32_address_decode", || c32_address_decode(s))?;
    ctx.same("c32_address_decode", &got.ok(), &want)?;
    let got = ctx.try_sut("Address::from_str", || Address::from_str(s))?;
    ctx.same("Address::from_str", &got.ok().map(|a| (a.hash.as_bytes().to_vec(), a.version)), &want)
}

fn c08(tier: Tier) -> Check {
    let on = |b: &[u8], m: String| format!("bytes {}: {m}", short(&hexs(b)));
    let ot = |s: &str, m: String| format!("text {}: {m}", short(&s));
    let lb = tier.pick(2, 3);
    let la = tier.pick(3, 4);
    let lz = tier.pick(130u64, 320);
    const AL: [char; 10] = ['0', 'O', '1', 'l', 'Z', 'z', 'U', 'S', 'é', '-'];
    let lw = tier.pick(5, 7);
    let valid = "SP2JXKMSH007NPYAQHKJPQMAQYAD90NQGTVJVQ02B";
    let probe: Vec<char> = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz .-é\u{130}".chars().collect();
    let targets: Vec<Edits> = [
        valid.to_string(),
        address(&[0; 20], 26).unwrap(),
        address(&[0xff; 20], 20).unwrap(),
        address(&pattern(20, 3), 21).unwrap(),
        address(&pattern(20, 4), 22).unwrap(),
        address(&[], 22).unwrap(),
    ]
    .iter()
    .map(|s| Edits::new(s, &probe))
    .collect();
    let counts: Vec<u64> = targets.iter().map(Edits::count).collect();
    let raw: Vec<(Vec<u8>, u8)> = vec![(vec![0u8; 20], 22), (pattern(20, 2), 26), (pattern(20, 1), 20), (vec![], 21)];
    let raw_counts: Vec<u64> = raw.iter().map(|(b, _)| flips((b.len() as u64 + 4) * 8)).collect();
    let ch: Vec<char> = valid.chars().collect();
    let c32: Vec<char> = C32.chars().collect();
    let np = (ch.len() * (ch.len() - 1) / 2) as u64;
    let pairs: Vec<(usize, usize)> = (0..ch.len()).flat_map(|p| (p + 1..ch.len()).map(move |q| (p, q))).collect();
    let stages = vec![
        stage("bytes-all", words(256, lb), format!("every byte string of <= {lb} bytes"), move |ctx, i| {
            let b = nth_bytes(i);
            c32_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("bytes-lengths", 40 * lz * PATTERNS, format!("0..39 leading zeros x tails of 0..{lz} bytes x 6 patterns"), move |ctx, i| {
            let b = zeros_and_tail(i, 40, lz);
            c32_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("bytes-long", tier.pick(1040 - 130, 2060 - 130) * 3, "every length up to 1040 (thorough 2060) x 3 patterns", move |ctx, i| {
            let b = pattern(130 + (i / 3) as usize, [1, 2, 5][(i % 3) as usize]);
            c32_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("check-long", 300 * 4, "checksummed payloads of 0..300 bytes x 4 versions", move |ctx, i| {
            let (v, b) = ([0u8, 22, 26, 31][(i % 4) as usize], pattern((i / 4) as usize, i % PATTERNS));
            let want = c32check_enc(&b, v).unwrap();
            let got = ctx.try_sut("c32check_encode", || c32check_encode(&b, v))?;
            ctx.same("c32check_encode", &got.ok().as_ref(), &Some(&want)).map_err(|m| on(&b, m))?;
            c32_text(ctx, &want).map_err(|m| ot(&want, m))
        }),
        stage("check-orders", 40 * 4, "payloads of 0..40 bytes x 4 versions, checksum bytes in every order", move |ctx, i| {
            let (v, l) = ([22u8, 20, 26, 21][(i % 4) as usize], (i / 4) as usize);
            let body = pattern(l, 2);
            let mut raw = vec![v];
            raw.extend(&body);
            let c = dsha256(&raw);
            for o in 0..24u64 {
                let mut b = body.clone();
                b.extend(order4(o).map(|k| c[k]));
                let s = format!("S{}{}", C32.chars().nth(v as usize).unwrap(), c32_enc(&b));
                c32_text(ctx, &s[1..]).map_err(|m| ot(&s, m))?;
                c32_text(ctx, &s).map_err(|m| ot(&s, m))?;
            }
            Ok(())
        }),
        stage("text-ascii", words(128, la), format!("every ASCII text of <= {la} characters"), move |ctx, i| {
            let s = ascii(i);
            c32_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("text-scalars", 0x110000 * 4, "every Unicode scalar alone and before, inside and after a valid address", move |ctx, i| {
            let Some(s) = scalar_texts(i, valid) else { return Ok(()) };
            c32_text(ctx, &s).map_err(|m| ot(&s, m))?;
            c32_text(ctx, s.strip_prefix('S').unwrap_or("")).map_err(|m| ot(&s, m))
        }),
        stage("text-words", words(10, lw), format!("every word of <= {lw} letters over 10, also behind S and SP"), move |ctx, i| {
            let s: String = nth_word(&AL, i).into_iter().collect();
            c32_text(ctx, &s).map_err(|m| ot(&s, m))?;
            let s = format!("SP{s}");
            c32_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("text-runs", 60 * 160 * 3, "0..59 zero digits then 0..159 equal digits", move |ctx, i| {
            let s = format!("{}{}", "0".repeat((i % 60) as usize), ["1", "G", "Z"][(i / 9600) as usize].repeat((i / 60 % 160) as usize));
            c32_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("check-encode", 256 * 70 * PATTERNS, "c32check: every version byte x payloads of 0..69 bytes x 6 patterns", move |ctx, i| {
            let (v, l, p) = ((i % 256) as u8, (i / 256 % 70) as usize, i / 256 / 70);
            let b = pattern(l, p);
            let want = c32check_enc(&b, v);
            let got = ctx.try_sut("c32check_encode", || c32check_encode(&b, v))?;
            ctx.same("c32check_encode", &got.ok(), &want).map_err(|m| on(&b, m))?;
            if let Some(w) = want {
                ctx.state(w.as_bytes());
                let back = ctx.try_sut("c32check_decode", || c32check_decode(w.as_str()))?;
                ctx.same("c32check_decode of encoding", &back.ok(), &Some((b.clone(), v))).map_err(|m| on(&b, m))?;
                let a = format!("S{w}");
                addr_text(ctx, &a).map_err(|m| ot(&a, m))?;
            }
            if l == 20 {
                let want = address(&b, v);
                let got = ctx.try_sut("c32_address", || c32_address(&b, v))?;
                ctx.same("c32_address", &got.ok(), &want).map_err(|m| on(&b, m))?;
            }
            Ok(())
        }),
        stage("address-hashes", 20 * 256 * 4 * 2, "every byte value at every hash position over two backgrounds, four versions", move |ctx, i| {
            let (ver, byte, bg, pos) = (VERSIONS[(i % 4) as usize], (i / 4 % 256) as u8, i / 1024 % 2, (i / 2048) as usize);
            let mut h = if bg == 0 { vec![0; 20] } else { pattern(20, 5) };
            h[pos] = byte;
            let want = address(&h, ver);
            let got = ctx.try_sut("c32_address", || c32_address(&h, ver))?;
            ctx.same("c32_address", &got.ok(), &want).map_err(|m| on(&h, m))?;
            c32_text(ctx, &want.unwrap()).map_err(|m| on(&h, m))
        }),
        stage("edits", counts.iter().sum(), "every single edit (67-character alphabet) of 6 addresses", move |ctx, mut i| {
            let mut k = 0;
            while i >= counts[k] {
                i -= counts[k];
                k += 1;
            }
            let s = targets[k].nth(i);
            c32_text(ctx, &s).map_err(|m| ot(&s, m))?;
            c32_text(ctx, s.strip_prefix('S').unwrap_or("")).map_err(|m| ot(&s, m))
        }),
        stage("double-substitutions", np * tier.pick(16 * 16, 1024), "every pair of positions of an address x every pair of (quick: every other) c32 digits", move |ctx, i| {
            let per = tier.pick(256u64, 1024);
            let side = tier.pick(16u64, 32);
            let (p, q) = pairs[(i / per) as usize];
            let st = (32 / side) as usize;
            let mut c = ch.clone();
            c[p] = c32[(i % per / side) as usize * st];
            c[q] = c32[(i % side) as usize * st];
            let s: String = c.into_iter().collect();
            addr_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("flips", raw_counts.iter().sum(), "every one- and two-bit corruption of 4 checksummed payloads", move |ctx, mut i| {
            let mut k = 0;
            while i >= raw_counts[k] {
                i -= raw_counts[k];
                k += 1;
            }
            let (p, v) = &raw[k];
            let mut t = vec![*v];
            t.extend(p);
            let c = dsha256(&t);
            let mut b = p.clone();
            b.extend(&c[..4]);
            flip(&mut b, i);
            let s = format!("S{}{}", C32.chars().nth(*v as usize).unwrap(), c32_enc(&b));
            c32_text(ctx, &s).map_err(|m| ot(&s, m))?;
            c32_text(ctx, &s[1..]).map_err(|m| ot(&s, m))
        }),
        stage("version-swaps", 4 * 32 * 32, "addresses re-labelled with another version symbol, checksum kept", move |ctx, i| {
            let h = pattern(20, i % 4);
            let (v, w) = ((i / 4 % 32) as u8, (i / 128) as usize);
            let mut s: Vec<char> = c32check_enc(&h, v).unwrap().chars().collect();
            s[0] = C32.chars().nth(w).unwrap();
            let s: String = s.into_iter().collect();
            c32_text(ctx, &s).map_err(|m| ot(&s, m))?;
            addr_text(ctx, &format!("S{s}")).map_err(|m| ot(&s, m))
        }),
        stage("spellings", 1 << 12, "an address with every subset of 12 of its letters in lowercase and digits as look-alikes", move |ctx, i| {
            let a = address(&pattern(20, 2), 22).unwrap().replace("SP", "SP");
            let mut k = 0;
            let s: String = a
                .chars()
                .enumerate()
                .map(|(p, c)| {
                    let alias = match c {
                        '0' => 'O',
                        '1' => 'l',
                        c => c.to_ascii_lowercase(),
                    };
                    if p > 0 && alias != c && k < 12 {
                        k += 1;
                        if i >> (k - 1) & 1 == 1 {
                            return alias;
                        }
                    }
                    c
                })
                .collect();
            c32_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
    ];
    Check {
        id: "C08",
        rule: "one case = one byte string or text; C32, c32check and address functions compared with a schoolbook base-conversion model, panics caught",
        assumptions: assume(&["formatting an address from a hash that is not 20 bytes is outside the property", "inputs outside the enumerated families behave like their neighbours"]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C09

fn unhex_model(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    b.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}

fn hex_text(ctx: &mut Ctx, s: &str) -> Result<(), String> {
    ctx.state(s.as_bytes());
    let want = unhex_model(s);
    let got = ctx.try_sut("hex_to_bytes", || hex_to_bytes(s))?;
    ctx.same("hex_to_bytes", &got.ok(), &want)?;
    let it = ctx.sut("HexIterator", || match HexIterator::new(s) {
        Err(_) => None,
        Ok(it) => it.collect::<Result<Vec<u8>, _>>().ok(),
    })?;
    ctx.same("HexIterator", &it, &want)?;
    if s.len() % 2 == 1 {
        let bad = ctx.sut("HexIterator::new", || HexIterator::new(s).is_err())?;
        ctx.holds("HexIterator accepted text of odd length", bad)?;
    }
    Ok(())
}

fn hex_bytes(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let want = hexs(b);
    ctx.sample(|| short(&want));
    let got = ctx.sut("bytes_to_hex", || bytes_to_hex(b))?;
    ctx.same("bytes_to_hex", &got, &want)?;
    hex_text(ctx, &want)?;
    hex_text(ctx, &want.to_uppercase())
}

fn c09(tier: Tier) -> Check {
    let on = |b: &[u8], m: String| format!("bytes {}: {m}", short(&hexs(b)));
    let ot = |s: &str, m: String| format!("text {}: {m}", short(&s));
    const AL: [char; 20] = ['0', '9', 'a', 'f', 'A', 'F', '/', ':', '@', 'G', '`', 'g', 'x', 'X', ' ', '\n', '+', '-', '_', 'é'];
    let (lb, la, lw, ll) = (tier.pick(2, 3), tier.pick(3, 4), tier.pick(5, 6), tier.pick(1100u64, 5000));
    let stages = vec![
        stage("bytes-all", words(256, lb), format!("every byte string of <= {lb} bytes, decoded in both cases"), move |ctx, i| {
            let b = nth_bytes(i);
            hex_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("bytes-lengths", ll * PATTERNS, format!("lengths 0..{ll} x 6 patterns"), move |ctx, i| {
            let b = pattern((i / PATTERNS) as usize, i % PATTERNS);
            hex_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("bytes-positions", 32 * 256, "every byte value at each of 32 positions", move |ctx, i| {
            let mut b = pattern(32, 2);
            b[(i / 256) as usize] = i as u8;
            hex_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("text-ascii", words(128, la), format!("every ASCII text of <= {la} characters"), move |ctx, i| {
            let s = ascii(i);
            hex_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("text-scalars", 0x110000 * 4, "every Unicode scalar alone and before, inside and after valid hex", move |ctx, i| {
            for v in ["0aF9", "0aF"] {
                let Some(s) = scalar_texts(i, v) else { return Ok(()) };
                hex_text(ctx, &s).map_err(|m| ot(&s, m))?;
            }
            Ok(())
        }),
        stage("text-words", words(20, lw), format!("every word of <= {lw} letters over 20 boundary characters"), move |ctx, i| {
            let s: String = nth_word(&AL, i).into_iter().collect();
            hex_text(ctx, &s).map_err(|m| ot(&s, m))
        }),
        stage("text-one-bad", 200 * 128, "hex of 1..200 digits with every ASCII character at the last, first or middle place", move |ctx, i| {
            let l = (i / 128) as usize + 1;
            for p in [0, l / 2, l - 1] {
                let mut c = vec![b'7'; l];
                c[p] = (i % 128) as u8;
                let s = String::from_utf8(c).unwrap();
                hex_text(ctx, &s).map_err(|m| ot(&s, m))?;
            }
            Ok(())
        }),
    ];
    Check {
        id: "C09",
        rule: "one case = one byte string or text; both conversions and the digit iterator compared with a reference",
        assumptions: assume(&["longer inputs behave like the enumerated ones"]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C10

fn digests(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    ctx.state(b);
    macro_rules! d {
        ($h:ident, $want:expr) => {{
            let w: Vec<u8> = $want;
            let (x, c, hx, r, v) = ctx.sut(stringify!($h), || {
                let h = $h::from_slice(b);
                let r: &[u8] = h.as_ref();
                (h.as_bytes().to_vec(), h.checksum(), h.hex(), r.to_vec(), Vec::<u8>::from(h))
            })?;
            ctx.same(stringify!($h), &x, &w)?;
            ctx.same(concat!(stringify!($h), " checksum"), &c.to_vec(), &w[..4].to_vec())?;
            ctx.same(concat!(stringify!($h), " hex"), &hx, &hexs(&w))?;
            ctx.same(concat!(stringify!($h), " bytes"), &(r, v), &(w.clone(), w))?;
        }};
    }
    d!(Sha256Hash, sha256(b));
    d!(DSha256Hash, dsha256(b));
    d!(Sha512_256Hash, sha512_256(b));
    d!(Hash160, hash160(b));
    let g = ctx.sut("SignatureHash", || SignatureHash::from_slice(b).as_bytes().to_vec())?;
    ctx.same("SignatureHash", &g, &sha512_256(b))?;
    let g = ctx.sut("hash_p2pkh", || hash_p2pkh(b).as_bytes().to_vec())?;
    ctx.same("hash_p2pkh", &g, &hash160(b))?;
    let g = ctx.sut("hash_p2wpkh", || hash_p2wpkh(b).as_bytes().to_vec())?;
    ctx.same("hash_p2wpkh", &g, &p2wpkh(b))
}

pub fn keys(n: usize) -> Vec<(SecretKey, PublicKey)> {
    let secp = Secp256k1::new();
    (0..n)
        .map(|i| {
            let s = SecretKey::from_slice(&sha256(format!("key {i}").as_bytes())).unwrap();
            (s, s.public_key(&secp))
        })
        .collect()
}

fn scripts(ctx: &mut Ctx, m: u8, ks: &[PublicKey]) -> Result<(), String> {
    let raw: Vec<Vec<u8>> = ks.iter().map(|k| k.serialize().to_vec()).collect();
    ctx.state(&multisig_script(m, &raw));
    let g = ctx.sut("hash_p2sh", || hash_p2sh(m, ks).as_bytes().to_vec())?;
    ctx.same("hash_p2sh", &g, &p2sh(m, &raw))?;
    let g = ctx.sut("hash_p2wsh", || hash_p2wsh(m, ks).as_bytes().to_vec())?;
    ctx.same("hash_p2wsh", &g, &p2wsh(m, &raw))
}

const ORDER: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";

/// None: not judged (zero scalars).
fn sig_valid(b: &[u8]) -> Option<bool> {
    let n = unhex(ORDER);
    let (r, s) = (&b[1..33], &b[33..65]);
    if b[0] > 3 || r >= &n[..] || s >= &n[..] {
        return Some(false);
    }
    if r.iter().all(|x| *x == 0) || s.iter().all(|x| *x == 0) {
        return None;
    }
    Some(true)
}

fn sig_bytes(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    ctx.state(b);
    let m = ctx.try_sut("MessageSignature::from_slice", || MessageSignature::from_slice(b))?;
    ctx.same("from_slice accepts", &m.is_ok(), &(b.len() == 65))?;
    let Ok(m) = m else { return Ok(()) };
    ctx.same("from_slice", &m.as_bytes().to_vec(), &b.to_vec())?;
    let r = ctx.try_sut("into_recov", || m.into_recov())?;
    if let Some(w) = sig_valid(b) {
        ctx.same("into_recov accepts", &r.is_ok(), &w)?;
    }
    if let Ok(r) = r {
        let (id, c) = r.serialize_compact();
        let mut v = vec![id.to_i32() as u8];
        v.extend(c);
        ctx.same("into_recov", &v, &b.to_vec())?;
        let back = ctx.try_sut("from_recov", || MessageSignature::from_recov(r))?;
        ctx.same("from_recov", &back.ok().map(|x| x.as_bytes().to_vec()), &Some(b.to_vec()))?;
    }
    Ok(())
}

fn c10(tier: Tier) -> Check {
    let on = |b: &[u8], m: String| format!("bytes {}: {m}", short(&hexs(b)));
    let lb = tier.pick(2, 3);
    let ll = tier.pick(700u64, 3000);
    let ks: Vec<PublicKey> = keys(16).into_iter().map(|k| k.1).collect();
    let (k2, k3, k4, k5) = (ks.clone(), ks.clone(), ks.clone(), ks.clone());
    // a real signature to mutate
    let secp = Secp256k1::new();
    let sk = keys(1)[0].0;
    let (id, c) = secp.sign_ecdsa_recoverable(&secp256k1::Message::from_digest_slice(&[7; 32]).unwrap(), &sk).serialize_compact();
    let mut sig = vec![id.to_i32() as u8];
    sig.extend(c);
    let n = unhex(ORDER);
    let mut scal: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32], n.clone(), pattern(32, 2), sig[1..33].to_vec()];
    for d in [1u8, 2] {
        let mut a = n.clone();
        a[31] -= d;
        scal.push(a);
        let mut a = n.clone();
        a[31] += d;
        scal.push(a);
        let mut a = vec![0; 32];
        a[31] = d;
        scal.push(a);
    }
    scal.push(unhex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0"));
    scal.push(unhex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1"));
    let ns = scal.len() as u64;
    let stages = vec![
        stage("digest-all", words(256, lb), format!("every message of <= {lb} bytes: 4 digests, checksums, key hashes"), move |ctx, i| {
            let b = nth_bytes(i);
            ctx.sample(|| hexs(&b));
            digests(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("digest-lengths", ll * PATTERNS, format!("message lengths 0..{ll} x 6 patterns"), move |ctx, i| {
            let b = pattern((i / PATTERNS) as usize, i % PATTERNS);
            digests(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("digest-long", 8, "lengths 65535..65537, 1 MiB +- 1", move |ctx, i| {
            let b = pattern([65535, 65536, 65537, 100_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3_000_000][i as usize], 5);
            digests(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("keys", 16 * 2, "key hashes of 16 keys, compressed and uncompressed", move |ctx, i| {
            let k = &k2[(i / 2) as usize];
            let b = if i % 2 == 0 { k.serialize().to_vec() } else { k.serialize_uncompressed().to_vec() };
            digests(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("scripts-mn", 17 * 17, "m-of-n scripts for every m, n in 0..=16", move |ctx, i| {
            let (m, n) = ((i % 17) as u8, (i / 17) as usize);
            scripts(ctx, m, &k3[..n]).map_err(|e| format!("{m}-of-{n}: {e}"))
        }),
        stage("scripts-large", (175 - 16) * 6, "m-of-n scripts of 17..=175 keys, count bytes 0x50 + count, 6 values of m", move |ctx, i| {
            let n = 17 + (i / 6) as usize;
            let m = [1, 2, 16, 17, n as u8 / 2, n as u8][(i % 6) as usize];
            let ks: Vec<PublicKey> = (0..n).map(|j| k5[j * 7 % k5.len()]).collect();
            scripts(ctx, m, &ks).map_err(|e| format!("{m}-of-{n}: {e}"))
        }),
        stage("scripts-orders", words(4, 6) * 3, "every key sequence of <= 6 keys out of 4 (orders, repetitions), m in 1..=3", move |ctx, i| {
            let w = nth_word(&k4[..4], i / 3);
            scripts(ctx, 1 + (i % 3) as u8, &w).map_err(|e| format!("{}-of-{}: {e}", 1 + i % 3, w.len()))
        }),
        stage("signature-lengths", 140, "signature byte strings of every length 0..140", move |ctx, i| {
            let mut b = pattern(i as usize, 2);
            if let Some(f) = b.first_mut() {
                *f = 1;
            }
            sig_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("signature-bytes", 65 * 256, "every byte value at every position of a real signature", move |ctx, i| {
            let mut b = sig.clone();
            b[(i / 256) as usize] = i as u8;
            sig_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("signature-scalars", 256 * ns * ns, "every recovery id x boundary scalars (0, 1, n/2, n-2..n+2, 2^256-1) for r and s", move |ctx, i| {
            let mut b = vec![(i % 256) as u8];
            b.extend(&scal[(i / 256 % ns) as usize]);
            b.extend(&scal[(i / 256 / ns) as usize]);
            sig_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("wrapping", 256 * 2, "20-byte and 65-byte constructors keep their bytes", move |ctx, i| {
            let mut h = pattern(20, 2);
            h[(i % 20) as usize] = i as u8;
            let g = ctx.sut("Hash160::new", || Hash160::new(&h).into_bytes().to_vec())?;
            ctx.same("Hash160::new", &g, &h)?;
            let mut s = pattern(65, 2);
            s[(i % 65) as usize] = i as u8;
            let g = ctx.sut("MessageSignature::new", || MessageSignature::new(&s).into_bytes().to_vec())?;
            ctx.same("MessageSignature::new", &g, &s)
        }),
    ];
    Check {
        id: "C10",
        rule: "one case = one message, key list or signature string; digests, script hashes and conversions compared with reference constructions",
        assumptions: assume(&["sha2 and ripemd crates are correct", "signatures with a zero scalar are not judged"]),
        stages,
        isolated: vec![],
    }
}
