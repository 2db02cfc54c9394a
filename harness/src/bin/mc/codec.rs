//! C01..C06: Clarity values.

use harness::engine::*;
use harness::refs::*;
use harness::term::*;
use stacks_rs::clarity;
use stacks_rs::clarity::*;

pub fn registry() -> Registry {
    vec![("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05), ("C06", c06)]
}

fn assume(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

// ------------------------------------------------------------------ enumerated terms

/// A finite family of terms.
pub struct Family {
    pub name: &'static str,
    pub n: u64,
    pub bounds: String,
    pub at: Box<dyn Fn(u64) -> T + Sync + Send>,
}

fn fam(name: &'static str, n: u64, bounds: impl Into<String>, at: impl Fn(u64) -> T + Sync + Send + 'static) -> Family {
    Family { name, n, bounds: bounds.into(), at: Box::new(at) }
}

const BIG: [usize; 10] = [4095, 4096, 65534, 65535, 65536, 65537, 65793, 131072, 1 << 20, (1 << 24) + 1];

/// Lengths just below, at and above powers of two.
pub fn around(tier: Tier) -> Vec<usize> {
    let ks: &[u32] = tier.pick(&[8, 12, 16][..], &[8, 9, 10, 11, 12, 13, 14, 15, 16, 17][..]);
    ks.iter().flat_map(|k| (1usize << k) - 24..=(1 << k) + 2).collect()
}

fn permutation(n: usize, mut i: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for k in (1..=n).rev() {
        let f: u64 = (1..k as u64).product::<u64>().max(1);
        out.push(pool.remove((i / f) as usize));
        i %= f;
    }
    out
}
fn factorial(n: u64) -> u64 {
    (1..=n).product()
}

fn wrap(kind: u64, t: T) -> T {
    match kind {
        0 => T::Ok(Box::new(t)),
        1 => T::Err(Box::new(t)),
        2 => T::Some(Box::new(t)),
        3 => T::List(vec![t]),
        4 => T::Tup(vec![("k".into(), t)]),
        5 => T::List(vec![T::None, t, T::True]),
        _ => T::Tup(vec![("z".into(), T::Buf(vec![1])), ("m".into(), t), ("a".into(), T::Int(5))]),
    }
}

/// Values of every kind, several sizes each.
pub fn beside() -> Vec<T> {
    let b = |t: T| Box::new(t);
    let e = |k: &str, t: T| (k.to_string(), t);
    vec![
        T::Int(-2),
        T::UInt(300),
        T::True,
        T::None,
        T::Buf(vec![]),
        T::Buf(vec![9]),
        T::Buf(vec![2; 300]),
        T::Ascii("".into()),
        T::Ascii("ab".into()),
        T::Utf8("é".into()),
        T::Utf8("\u{20ac}uro".into()),
        T::Std(ADDR.into()),
        T::Con(ADDR.into(), "c".into()),
        T::Con(ADDR_T.into(), "longer-name".into()),
        T::Some(b(T::True)),
        T::Some(b(T::Int(4))),
        T::Some(b(T::Buf(vec![5; 40]))),
        T::Some(b(T::Some(b(T::None)))),
        T::Ok(b(T::False)),
        T::Ok(b(T::Buf(vec![5; 3]))),
        T::Err(b(T::UInt(1))),
        T::Err(b(T::Utf8("nö".into()))),
        T::List(vec![]),
        T::List(vec![T::Int(1)]),
        T::List(vec![T::True; 3]),
        T::List(vec![T::List(vec![]), T::List(vec![T::None])]),
        T::Tup(vec![e("a", T::Int(1))]),
        T::Tup(vec![e("b", T::None), e("a", T::Buf(vec![7; 9]))]),
        T::Tup(vec![e("a-longer-key", T::Tup(vec![e("x", T::True)]))]),
    ]
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ni = int_bits_count();
    v.push(fam("ints", ni * 2, "all of +-2^17, 2^k and 10^k +-2, every byte value in every byte position over 4 backgrounds; Int and UInt", move |i| {
        let b = int_bits(i / 2).unwrap();
        if i % 2 == 0 {
            T::Int(b as i128)
        } else {
            T::UInt(b)
        }
    }));
    let l = tier.pick(1030u64, 4200);
    v.push(fam("buffers", (l + 1) * PATTERNS, format!("buffer lengths 0..={l}, 6 content patterns"), move |i| {
        T::Buf(pattern((i / PATTERNS) as usize, i % PATTERNS))
    }));
    v.push(fam("strings", (l + 1) * 8, format!("string byte lengths 0..={l}, characters of 1..4 bytes, ASCII and UTF-8"), move |i| {
        let s = text_of((i / 8) as usize, 1 + (i % 4) as usize);
        if i / 4 % 2 == 0 {
            T::Ascii(s)
        } else {
            T::Utf8(s)
        }
    }));
    v.push(fam("big", BIG.len() as u64 * 3, "lengths around 2^12, 2^16, 2^17, 2^20, 2^24", |i| {
        let n = BIG[(i / 3) as usize];
        match i % 3 {
            0 => T::Buf(pattern(n, 5)),
            1 => T::Ascii(text_of(n, 1)),
            _ => T::Utf8(text_of(n, 3)),
        }
    }));
    let sizes = around(tier);
    let ns = sizes.len() as u64;
    v.push(fam("big-inside", ns * 7 * 4, "each of 7 wrappers around buffers, strings and lists of 2^k-24..=2^k+2 bytes (8 <= k <= 17), so that every wrapper's own length crosses the power of two", move |i| {
        wrap(i % 7, big_leaf(i / 7 % 4, sizes[(i / 28) as usize]))
    }));
    v.push(fam("byte-values", 256 * 3, "every byte value as first, middle, last buffer byte", |i| {
        let mut b = vec![0x55; 3];
        b[(i % 3) as usize] = (i / 3) as u8;
        T::Buf(b)
    }));
    v.push(fam("chars", 0x110000 * 2, "every Unicode scalar value at the start, in the middle and at the end of an ASCII and a UTF-8 string", |i| {
        let s = match char::from_u32((i / 2) as u32) {
            Some(c) => format!("{c}a{c}b{c}"),
            None => String::new(),
        };
        if i % 2 == 0 {
            T::Ascii(s)
        } else {
            T::Utf8(s)
        }
    }));
    v.push(fam("placed-chars", 0x3100 * 4 * 4, "every character up to U+30FF alone, first, last and doubled, as ASCII string, UTF-8 string, contract name and tuple key", |i| {
        let Some(c) = char::from_u32((i / 16) as u32) else { return T::None };
        let s = match i % 4 {
            0 => c.to_string(),
            1 => format!("{c}a"),
            2 => format!("a{c}"),
            _ => format!("{c}{c}"),
        };
        match i / 4 % 4 {
            0 => T::Ascii(s),
            1 => T::Utf8(s),
            2 => T::Con(ADDR.into(), s),
            _ => T::Tup(vec![("k".into(), T::Int(1)), (s, T::None), ("K".into(), T::True)]),
        }
    }));
    v.push(fam("chars-inside", 0x110000, "every Unicode scalar value in a UTF-8 (and up to U+007F ASCII) string inside a response, optional, list, tuple and under a tuple key", |i| {
        let Some(c) = char::from_u32(i as u32) else { return T::None };
        let s = || T::Utf8(format!("{c}a{c}"));
        let b = Box::new;
        T::Tup(vec![
            ("k".into(), s()),
            ("l".into(), T::List(vec![s(), if c.is_ascii() { T::Ascii(c.to_string()) } else { T::None }, s()])),
            ("r".into(), T::Ok(b(T::Err(b(s()))))),
            (format!("o{c}"), T::Some(b(T::Tup(vec![(c.to_string(), s())])))),
        ])
    }));
    let odd: Vec<char> = "\u{0}\t\n\r .,:;-_\"'\\()\u{7f}\u{85}\u{a0}\u{ad}\u{200b}\u{200d}\u{2028}\u{3000}\u{feff}\u{fffd}\u{ffff}\u{10ffff}éa".chars().collect();
    let no = words(odd.len() as u64, 3);
    v.push(fam("char-words", no * 4, format!("every text of <= 3 of {} characters that text handling tends to treat specially, as ASCII string, UTF-8 string, contract name and tuple key", odd.len()), move |i| {
        let s: String = nth_word(&odd, i / 4).into_iter().collect();
        match i % 4 {
            0 => T::Ascii(s),
            1 => T::Utf8(s),
            2 => T::Con(ADDR_T.into(), s),
            _ => T::Tup(vec![(s, T::UInt(1))]),
        }
    }));
    v.push(fam("names", 300 * 4 * 2, "contract names and tuple keys of 0..300 bytes, characters of 1..4 bytes", |i| {
        let s = text_of((i / 8) as usize, 1 + (i % 4) as usize);
        if i / 4 % 2 == 0 {
            T::Con(ADDR.into(), s)
        } else {
            T::Tup(vec![("q".into(), T::True), (s, T::None), ("A".into(), T::False)])
        }
    }));
    v.push(fam("principals", 20 * 256 * 4 * 2, "every byte value at every hash position, four versions, standard and contract", |i| {
        let (kind, ver, byte, pos) = (i % 2, i / 2 % 4, i / 8 % 256, i / 2048);
        let mut h = if byte % 2 == 0 { vec![0u8; 20] } else { pattern(20, 2) };
        h[pos as usize] = byte as u8;
        let a = address(&h, VERSIONS[ver as usize]).unwrap();
        if kind == 0 {
            T::Std(a)
        } else {
            T::Con(a, "c-0".into())
        }
    }));
    let e = Edits::new(ADDR, &"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZaopz. -é".chars().collect::<Vec<_>>());
    v.push(fam("address-edits", e.count() * 2, "every single edit (44-character alphabet) of a valid address", move |i| {
        let a = e.nth(i / 2);
        if i % 2 == 0 {
            T::Std(a)
        } else {
            T::Con(a, "c".into())
        }
    }));
    let (k, ld) = tier.pick((6u64, 5u32), (7, 7));
    let sets: Vec<Vec<&str>> = vec![
        vec!["a", "b", "c", "d", "e", "f", "g"],
        vec!["a", "aa", "ab", "b", "B", "a-b", ""],
        vec!["z", "Z", "0", "9", "_", "é", "zz"],
        vec!["name1", "name10", "name2", "name", "nam", "name!", "name?"],
    ];
    let f = factorial(k);
    v.push(fam("key-orders", f * 4, format!("every insertion order of {k} keys, 4 key sets (prefixes, cases, non-ASCII)"), move |i| {
        let set = &sets[(i / f) as usize];
        T::Tup(
            permutation(k as usize, i % f)
                .into_iter()
                .map(|j| (set[j].to_string(), if j % 2 == 0 { T::Int(j as i128) } else { T::Buf(vec![9; j]) }))
                .collect(),
        )
    }));
    let nw = words(7, ld);
    v.push(fam("wrapper-words", nw * 3, format!("every nesting of <= {ld} wrappers out of 7 kinds around 3 leaves"), move |i| {
        let kinds: Vec<u64> = (0..7).collect();
        let mut t = [T::Int(-1), T::Ascii("x".into()), T::Std(ADDR.into())][(i % 3) as usize].clone();
        for k in nth_word(&kinds, i / 3).into_iter().rev() {
            t = wrap(k, t);
        }
        t
    }));
    let deep = tier.pick(120u64, 400);
    v.push(fam("deep", 7 * deep, format!("uniform nesting of depth 1..={deep}, 7 wrapper kinds"), move |i| {
        let mut t = T::UInt(3);
        for _ in 0..=i / 7 {
            t = wrap(i % 7, t);
        }
        t
    }));
    let counts: Vec<usize> = (0..tier.pick(540, 1100)).chain([65535, 65536, 65537]).collect();
    v.push(fam("counts", counts.len() as u64 * 3, format!("lists and tuples of every count 0..={} and 65535..65537", counts.len() - 4), move |i| {
        let n = counts[(i / 3) as usize];
        match i % 3 {
            0 => T::List((0..n).map(|j| if j % 3 == 0 { T::None } else { T::Int(j as i128) }).collect()),
            1 => T::List(vec![T::True; n]),
            _ => T::Tup((0..n).rev().map(|j| (format!("k{j}"), if j % 2 == 0 { T::True } else { T::Buf(vec![j as u8]) })).collect()),
        }
    }));
    v.push(fam("key-pairs", 128 * 128, "every ordered pair of one-character ASCII keys", |i| {
        let k = |c: u64| ((c as u8) as char).to_string();
        let (a, b) = (i % 128, i / 128);
        if a == b {
            T::Tup(vec![(k(a), T::Int(1))])
        } else {
            T::Tup(vec![(k(a), T::Int(1)), (k(b), T::Buf(vec![2]))])
        }
    }));
    v.push(fam("key-prefixes", 128 * 12, "keys agreeing on their first 0..127 bytes: three continuations in every order, two fillings", |i| {
        let (k, o) = ((i / 12) as usize, i % 12);
        let p = if o < 6 { "p".repeat(k) } else { text_of(k, 2) };
        let tails = if k < 127 { ["", "a", "Z"] } else { ["", "a", "b"] };
        let keys: Vec<String> = permutation(3, o % 6).into_iter().map(|j| format!("{p}{}", tails[j])).collect();
        T::Tup(keys.into_iter().enumerate().map(|(j, k)| (k, T::UInt(j as u128))).collect())
    }));
    let nodd = tier.pick(20u64, 40);
    v.push(fam("odd-one-out", nodd * nodd * 49 * 2, format!("lists and tuples of 1..={nodd} entries, all of one of 7 kinds but one of another, in every position"), move |i| {
        let (tup, i) = (i % 2 == 1, i / 2);
        let (base, odd, i) = (i % 7, i / 7 % 7, i / 49);
        let (at, n) = (i % nodd, i / nodd + 1);
        if at >= n {
            return T::None;
        }
        let kind = |k: u64, j: u64| match k {
            0 => T::Int(j as i128),
            1 => T::None,
            2 => T::Buf(vec![j as u8; j as usize]),
            3 => T::Utf8(text_of(3 * (j as usize % 3), 3)),
            4 => T::Some(Box::new(T::UInt(j as u128))),
            5 => T::Tup(vec![("b".into(), T::True), ("a".into(), T::Int(j as i128))]),
            _ => T::List(vec![T::False; j as usize % 4]),
        };
        let key = |j: u64| if j == at { format!("odd-{}", "x".repeat(j as usize)) } else { format!("k{j}") };
        let vals = (0..n).map(|j| (key(j), kind(if j == at { odd } else { base }, j)));
        if tup {
            T::Tup(vals.collect())
        } else {
            T::List(vals.map(|e| e.1).collect())
        }
    }));
    let menu = beside();
    let nm = menu.len() as u64;
    v.push(fam("beside", nm * nm * nm * 2, format!("lists and tuples of every ordered triple of {nm} values, each kind in several sizes"), move |i| {
        let e: Vec<T> = [i / 2 % nm, i / 2 / nm % nm, i / 2 / nm / nm].iter().map(|k| menu[*k as usize].clone()).collect();
        if i % 2 == 0 {
            T::List(e)
        } else {
            T::Tup(["k", "ba", "a"].iter().map(|k| k.to_string()).zip(e).collect())
        }
    }));
    let nb = tier.pick(130u64, 260);
    v.push(fam("blocks", nb * 2, format!("lists and tuples of n buffers of n bytes, n <= {nb}"), move |i| {
        let n = (i / 2) as usize;
        let b = |j: usize| T::Buf(pattern(n, j as u64 % PATTERNS));
        if i % 2 == 0 {
            T::List((0..n).map(b).collect())
        } else {
            T::Tup((0..n).map(|j| (format!("key-{}", (j * 37) % 1000), b(j))).collect())
        }
    }));
    let sp = Space::new(leaves(), &["b", "a"], 2, 2);
    let n = sp.count();
    v.push(fam("shapes", n, "every term over 11 leaves, width <= 2, depth <= 2, tuple keys in every order", move |i| sp.nth(i)));
    let sp = Space::new(vec![T::Int(1), T::None], &["b", "a", "ab"], 3, tier.pick(1, 2));
    let n = sp.count().min(20_000_000);
    v.push(fam("wide-shapes", n, "every term over 2 leaves, width <= 3, 3 keys in every order (first 20M)", move |i| sp.nth(i)));
    let sp = Space::new(
        vec![T::Int(1), T::Ascii("é".into()), T::Std("nonsense".into()), T::Con(ADDR.into(), "x".repeat(129)), T::Tup(vec![("k".repeat(129), T::True)])],
        &["b", "a"],
        2,
        2,
    );
    let n = sp.count();
    v.push(fam("unencodable-shapes", n, "every term over 1 encodable and 4 unencodable leaves, width <= 2, depth <= 2", move |i| sp.nth(i)));
    v
}

fn term_stages(tier: Tier, f: fn(&mut Ctx, &T) -> Result<(), String>, pick: impl Fn(&Family) -> bool) -> Vec<Stage> {
    families(tier)
        .into_iter()
        .filter(|x| pick(x))
        .map(|fm| {
            let at = fm.at;
            stage(fm.name, fm.n, fm.bounds, move |ctx, i| {
                let t = at(i);
                f(ctx, &t).map_err(|m| format!("{}: {m}", show(&t)))
            })
        })
        .collect()
}

// ------------------------------------------------------------------ C01

fn check_codec<C: Codec + ?Sized>(ctx: &mut Ctx, v: &C, want: Option<Vec<u8>>) -> Result<(), String> {
    let enc = ctx.try_sut("encode", || v.encode())?;
    ctx.same("encode", &enc.as_ref().ok(), &want.as_ref())?;
    let len = ctx.try_sut("len", || v.len())?;
    ctx.same("len", &len.ok(), &want.as_ref().map(Vec::len))?;
    let e = ctx.try_sut("is_empty", || v.is_empty())?;
    ctx.same("is_empty", &e.ok(), &want.as_ref().map(Vec::is_empty))?;
    let hex = ctx.try_sut("hex", || v.hex())?;
    let wh = want.as_ref().map(|w| hexs(w));
    ctx.same("hex", &hex.ok(), &wh)?;
    let hp = ctx.try_sut("hex_prefixed", || v.hex_prefixed())?;
    ctx.same("hex_prefixed", &hp.ok(), &wh.map(|h| format!("0x{h}")))
}

fn c01_term(ctx: &mut Ctx, t: &T) -> Result<(), String> {
    let want = enc(t);
    match &want {
        Some(w) => ctx.state(w),
        None => ctx.state(format!("{t:?}").as_bytes()),
    }
    let v = ctx.sut("new", || build(t))?;
    ctx.sample(|| format!("{} -> {}", show(t), want.as_ref().map(|w| short(&hexs(w))).unwrap_or("error".into())));
    check_codec(ctx, v.as_ref(), want)
}

fn c01(tier: Tier) -> Check {
    let mut stages = term_stages(tier, c01_term, |_| true);
    stages.push(stage("argument-lists", 11 * 11 * 11 + 600, "every argument list of <= 3 leaves, every count < 600", |ctx, i| {
        let l = leaves();
        let a: Vec<T> = if i < 1331 {
            let full = [i % 11, i / 11 % 11, i / 121];
            full[..(i % 4) as usize].iter().map(|k| l[*k as usize].clone()).collect()
        } else {
            vec![T::UInt(i as u128); i as usize - 1331]
        };
        let v = ctx.sut("new", || build_args(&a))?;
        ctx.state(&enc_args(&a).unwrap());
        check_codec(ctx, &v, enc_args(&a))
    }));
    stages.push(stage("argument-lists-err", 4 * 3, "argument lists with one unencodable element in any position", |ctx, i| {
        let bad = [T::Ascii("é".into()), T::Std("x".into()), T::Con(ADDR.into(), "x".repeat(129)), T::List(vec![T::Std("".into())])];
        let mut a = vec![T::Int(1); 3];
        a[(i / 4) as usize] = bad[(i % 4) as usize].clone();
        let v = ctx.sut("new", || build_args(&a))?;
        check_codec(ctx, &v, None)
    }));
    stages.push(stage("name-type", 300 * 4 + 0x110000, "length-prefixed names of 0..300 bytes, every Unicode scalar", |ctx, i| {
        let s = if i < 1200 {
            text_of((i / 4) as usize, 1 + (i % 4) as usize)
        } else {
            match char::from_u32((i - 1200) as u32) {
                Some(c) => c.to_string(),
                None => return Ok(()),
            }
        };
        let v = ctx.sut("new", || LengthPrefixedStr::new(s.clone()))?;
        let want = enc_name(&s);
        ctx.state(s.as_bytes());
        check_codec(ctx, &v, want)
    }));
    Check {
        id: "C01",
        rule: "one case = one Clarity term; impl encode/len/is_empty/hex/hex_prefixed compared with a reference encoder",
        assumptions: assume(&["the reference encoder (harness/src/term.rs) states SIP-005 correctly", "beyond the enumerated lengths, depths and widths the encoding is uniform"]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C02

macro_rules! by_tag {
    ($tag:expr, $m:ident, $($x:tt)*) => {
        match $tag {
            0 => $m!(Int, $($x)*), 1 => $m!(UInt, $($x)*), 2 => $m!(Buffer, $($x)*), 3 => $m!(True, $($x)*),
            4 => $m!(False, $($x)*), 5 => $m!(PrincipalStandard, $($x)*), 6 => $m!(PrincipalContract, $($x)*),
            7 => $m!(ResponseOk, $($x)*), 8 => $m!(ResponseErr, $($x)*), 9 => $m!(OptionalNone, $($x)*),
            10 => $m!(OptionalSome, $($x)*), 11 => $m!(List, $($x)*), 12 => $m!(Tuple, $($x)*),
            13 => $m!(StringAscii, $($x)*), 14 => $m!(StringUtf8, $($x)*), _ => unreachable!(),
        }
    };
}

fn typed_decode(tag: u8, b: &[u8]) -> Result<Dyn, Error> {
    macro_rules! d { ($t:ident, $b:expr) => { <$t>::decode($b).map(|v| Box::new(v) as Dyn) } }
    by_tag!(tag, d, b)
}

/// `PartialEq` of the concrete type both values have.
fn typed_eq(tag: u8, a: &dyn Clarity, b: &dyn Clarity) -> bool {
    macro_rules! d { ($t:ident, $a:expr, $b:expr) => { $a.as_any().downcast_ref::<$t>().unwrap() == $b.as_any().downcast_ref::<$t>().unwrap() } }
    by_tag!(tag, d, a, b)
}

fn check_back(ctx: &mut Ctx, how: &str, t: &T, orig: &dyn Clarity, bytes: &[u8], got: Result<Dyn, String>) -> Result<(), String> {
    let got = match got {
        Ok(g) => g,
        Err(e) => return Err(format!("{how} refused its own encoding: {e}")),
    };
    let back = ctx.sut("value", || reify(got.as_ref()))?;
    ctx.same(how, &back.as_ref().map(canon), &Some(canon(t)))?;
    let eq = ctx.sut("eq", || typed_eq(tag(t), got.as_ref(), orig))?;
    ctx.holds("decoded value compares unequal to the original", eq)?;
    let again = ctx.try_sut("encode", || got.encode())?;
    ctx.same("re-encode", &again.ok().as_deref(), &Some(bytes))
}

fn c02_term(ctx: &mut Ctx, t: &T) -> Result<(), String> {
    let v = ctx.sut("new", || build(t))?;
    let Ok(bytes) = ctx.try_sut("encode", || v.encode())? else { return Ok(()) };
    ctx.state(&bytes);
    ctx.sample(|| format!("{} <-> {}", show(t), short(&hexs(&bytes))));
    let g = ctx.try_sut("decode_clarity_type", || decode_clarity_type(&bytes))?;
    check_back(ctx, "generic decoder", t, v.as_ref(), &bytes, g)?;
    let g = ctx.try_sut("decode", || typed_decode(tag(t), &bytes))?;
    check_back(ctx, "own decoder", t, v.as_ref(), &bytes, g)?;
    if bytes.len() > 5000 {
        return Ok(());
    }
    for tail in [&[0u8][..], &[0xff; 24], &[0x0b, 0, 0, 0, 2, 3, 4], b"a"] {
        let mut b = bytes.clone();
        b.extend(tail);
        let g = ctx.try_sut("decode_clarity_type", || decode_clarity_type(&b))?;
        check_back(ctx, "generic decoder with trailing bytes", t, v.as_ref(), &bytes, g)?;
        let g = ctx.try_sut("decode", || typed_decode(tag(t), &b))?;
        check_back(ctx, "own decoder with trailing bytes", t, v.as_ref(), &bytes, g)?;
    }
    Ok(())
}

/// The value in every kind of position next to every leaf type.
fn c02_context(ctx: &mut Ctx, t: &T) -> Result<(), String> {
    if enc(t).is_none() {
        return Ok(());
    }
    for n in leaves() {
        let l = |v: Vec<T>| T::List(v);
        let p = |v: Vec<(&str, T)>| T::Tup(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect());
        for c in [
            l(vec![n.clone(), t.clone()]),
            l(vec![t.clone(), n.clone()]),
            p(vec![("a", n.clone()), ("b", t.clone())]),
            p(vec![("b", t.clone()), ("aa", n.clone()), ("", t.clone())]),
            T::Some(Box::new(l(vec![t.clone(), T::Ok(Box::new(n.clone()))]))),
        ] {
            c02_term(ctx, &c)?;
        }
        args_back(ctx, &[n.clone(), t.clone(), n.clone()])?;
    }
    Ok(())
}

fn args_back(ctx: &mut Ctx, a: &[T]) -> Result<(), String> {
    let v = ctx.sut("new", || build_args(a))?;
    let Ok(bytes) = ctx.try_sut("encode", || v.encode())? else { return Ok(()) };
    ctx.state(&bytes);
    for tail in [&[][..], &[0x0d, 0, 0]] {
        let mut b = bytes.clone();
        b.extend(tail);
        let g = match ctx.try_sut("FnArguments::decode", || FnArguments::decode(&b))? {
            Ok(g) => g,
            Err(e) => return Err(format!("argument list refused its own encoding: {e}")),
        };
        let back = ctx.sut("value", || reify_args(&g))?;
        ctx.same("arguments", &back.map(|v| v.iter().map(canon).collect::<Vec<_>>()), &Some(a.iter().map(canon).collect()))?;
        let eq = ctx.sut("eq", || g == v)?;
        ctx.holds("decoded arguments compare unequal", eq)?;
        let again = ctx.try_sut("encode", || g.encode())?;
        ctx.same("re-encode", &again.ok(), &Some(bytes.clone()))?;
    }
    Ok(())
}

fn c02(tier: Tier) -> Check {
    let mut stages = term_stages(tier, c02_term, |f| !f.name.starts_with("unenc"));
    for fm in families(tier) {
        if ["buffers", "strings", "names", "wrapper-words"].contains(&fm.name) {
            let at = fm.at;
            let step = if fm.name == "wrapper-words" { tier.pick(29, 7) } else { tier.pick(5, 1) };
            stages.push(stage(
                &format!("context-{}", fm.name),
                fm.n / step,
                format!("{} (every {step}th) beside every leaf type in lists, tuples, optionals, argument lists", fm.bounds),
                move |ctx, i| {
                    let t = at(i * step);
                    c02_context(ctx, &t).map_err(|m| format!("{}: {m}", show(&t)))
                },
            ));
        }
    }
    stages.push(stage("argument-lists", 11u64.pow(4) + 300, "every argument list of <= 4 leaves, every count < 300", |ctx, i| {
        let l = leaves();
        if i < 11u64.pow(4) {
            let w = nth_word(&l, i);
            args_back(ctx, &w)
        } else {
            args_back(ctx, &vec![T::Buf(vec![3; 2]); (i - 11u64.pow(4)) as usize])
        }
    }));
    for fm in families(tier) {
        if fm.name == "char-words" || fm.name == "placed-chars" {
            let at = fm.at;
            stages.push(stage(&format!("arguments-{}", fm.name), fm.n, format!("{}, followed by other arguments", fm.bounds), move |ctx, i| {
                let t = at(i);
                args_back(ctx, &[t.clone(), T::UInt(1), t.clone(), t, T::True])
            }));
        } else if fm.name == "odd-one-out" {
            let at = fm.at;
            stages.push(stage("odd-arguments", fm.n / 2, "argument lists, one of another kind than the rest (as odd-one-out)", move |ctx, i| match at(i * 2) {
                T::List(l) => args_back(ctx, &l),
                _ => Ok(()),
            }));
        }
    }
    let nm = beside().len() as u64;
    stages.push(stage("beside-arguments", nm * nm * nm, format!("argument lists of every ordered triple of {nm} values, each kind in several sizes"), move |ctx, i| {
        let menu = beside();
        let a: Vec<T> = [i % nm, i / nm % nm, i / nm / nm].iter().map(|k| menu[*k as usize].clone()).collect();
        args_back(ctx, &a).map_err(|m| format!("{a:?}: {m}"))
    }));
    stages.push(stage("name-type", 129 * 4, "length-prefixed names of 0..=128 bytes, with and without trailing bytes", |ctx, i| {
        let s = text_of((i / 4) as usize, 1 + (i % 4) as usize);
        let b = enc_name(&s).unwrap();
        ctx.state(&b);
        for tail in ["", "x", "\u{0}\u{7f}"] {
            let mut c = b.clone();
            c.extend(tail.as_bytes());
            let g = ctx.try_sut("LengthPrefixedStr::decode", || LengthPrefixedStr::decode(&c))?;
            ctx.same("name", &g.as_ref().ok().map(|g| g.value().clone()), &Some(s.clone()))?;
            let e = ctx.try_sut("encode", || g.unwrap().encode())?;
            ctx.same("re-encode", &e.ok(), &Some(b.clone()))?;
        }
        Ok(())
    }));
    Check {
        id: "C02",
        rule: "one case = one encodable term; impl encoding decoded by the generic and the typed decoder, with and without trailing bytes, and compared with the term, the original value and the bytes",
        assumptions: assume(&["content accessors (value) report what a user sees", "beyond the enumerated lengths, depths and widths decoding is uniform"]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C03

fn c03_bytes(ctx: &mut Ctx, b: &[u8], typed: bool) -> Result<(), String> {
    ctx.state(b);
    let model = dec(b);
    let budget = 64 * b.len() + (64 << 10);
    let got = ctx.try_sut("decode_clarity_type", || decode_clarity_type(b))?;
    let max = ctx.max_alloc();
    ctx.holds(&format!("generic decoder allocated {max} bytes for {} bytes of input", b.len()), max <= budget)?;
    c03_judge(ctx, "decode_clarity_type", b, model.as_ref(), got)?;
    if typed {
        for tg in 0..15u8 {
            let own = model.as_ref().filter(|(t, _)| tag(t) == tg);
            let got = ctx.try_sut("decode", || typed_decode(tg, b))?;
            c03_judge(ctx, &format!("decoder of type {tg}"), b, own, got)?;
        }
        c03_name(ctx, b)?;
        c03_args(ctx, b)?;
    } else if let Some(tg) = b.first().filter(|t| **t < 15) {
        let got = ctx.try_sut("decode", || typed_decode(*tg, b))?;
        let max = ctx.max_alloc();
        ctx.holds(&format!("decoder allocated {max} bytes for {} bytes of input", b.len()), max <= budget)?;
        c03_judge(ctx, "own decoder", b, model.as_ref(), got)?;
    }
    Ok(())
}

fn c03_judge(ctx: &mut Ctx, how: &str, b: &[u8], model: Option<&(T, usize)>, got: Result<Dyn, String>) -> Result<(), String> {
    match (model, got) {
        (None, Err(_)) => {
            ctx.compared += 1;
            Ok(())
        }
        (None, Ok(v)) => Err(format!("{how} accepted malformed input as {}", ctx.sut("fmt", || short(&v.to_string()))?)),
        (Some((t, n)), Err(e)) => {
            if has_dup(t) {
                return Ok(());
            }
            Err(format!("{how} refused well-formed input ({} in {n} bytes): {e}", show(t)))
        }
        (Some((t, n)), Ok(v)) => {
            let e = ctx.try_sut("encode", || v.encode())?;
            if has_dup(t) {
                return ctx.same("length of re-encoding", &e.ok().map(|e| e.len()), &Some(*n));
            }
            ctx.same("re-encoding", &e.ok(), &enc(t))?;
            ctx.holds("model encoding length differs from consumed length", enc(t).map(|e| e.len()) == Some(*n))?;
            let back = ctx.sut("value", || reify(v.as_ref()))?;
            ctx.same(how, &back.as_ref().map(canon), &Some(canon(t)))?;
            let _ = b;
            Ok(())
        }
    }
}

fn c03_name(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let mut at = 0;
    let want = dec_name(b, &mut at);
    let got = ctx.try_sut("LengthPrefixedStr::decode", || LengthPrefixedStr::decode(b).map(|v| v.into_value()))?;
    ctx.same("LengthPrefixedStr::decode", &got.ok(), &want)
}

fn c03_args(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let want = dec_args(b);
    let got = ctx.try_sut("FnArguments::decode", || FnArguments::decode(b))?;
    let max = ctx.max_alloc();
    ctx.holds(&format!("argument decoder allocated {max} bytes for {} bytes", b.len()), max <= 64 * b.len() + (64 << 10))?;
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => Err("argument decoder accepted malformed input".into()),
        (Some((w, n)), got) => {
            let dup = w.iter().any(has_dup);
            match got {
                Err(e) if !dup => Err(format!("argument decoder refused well-formed input: {e}")),
                Err(_) => Ok(()),
                Ok(v) => {
                    let e = ctx.try_sut("encode", || v.encode())?;
                    ctx.same("arguments length", &e.as_ref().ok().map(Vec::len), &Some(n))?;
                    if dup {
                        return Ok(());
                    }
                    ctx.same("arguments re-encoding", &e.ok(), &enc_args(&w))?;
                    let back = ctx.sut("value", || reify_args(&v))?;
                    ctx.same("arguments", &back.map(|v| v.iter().map(canon).collect::<Vec<_>>()), &Some(w.iter().map(canon).collect()))
                }
            }
        }
    }
}

fn at_bytes(b: &[u8], m: String) -> String {
    format!("input {}: {m}", short(&hexs(b)))
}

fn corpus() -> Vec<T> {
    let t = |k: &str, v: T| (k.to_string(), v);
    let mut c = leaves();
    c.extend([
        T::Ok(Box::new(T::True)),
        T::Err(Box::new(T::Ascii("no".into()))),
        T::Some(Box::new(T::UInt(7))),
        T::List(vec![]),
        T::List(vec![T::Int(1), T::None]),
        T::List(vec![T::List(vec![T::True]), T::List(vec![])]),
        T::Tup(vec![]),
        T::Tup(vec![t("a", T::True)]),
        T::Tup(vec![t("a", T::Int(1)), t("bc", T::Buf(vec![1, 2]))]),
        T::Tup(vec![t("é", T::Tup(vec![t("x", T::None)])), t("", T::Utf8("ü".into()))]),
        T::Some(Box::new(T::Some(Box::new(T::Ok(Box::new(T::List(vec![T::None]))))))),
        T::Con(ADDR.into(), "".into()),
        T::Utf8("a\u{20ac}\u{1f600}".into()),
        T::List(vec![T::Ascii("ab".into()), T::Utf8("é".into()), T::Buf(vec![0])]),
        T::List(vec![T::Std(ADDR.into()), T::Con(ADDR_T.into(), "x".into())]),
    ]);
    c
}

fn c03(tier: Tier) -> Check {
    let mut stages = vec![];
    let l = tier.pick(2, 3);
    stages.push(stage("all-short", words(256, l), format!("every byte string of <= {l} bytes, every decoder"), |ctx, i| {
        let b = nth_bytes(i);
        ctx.sample(|| hexs(&b));
        c03_bytes(ctx, &b, true).map_err(|m| at_bytes(&b, m))
    }));
    const SYM: [u8; 18] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0x80, 0xff];
    let l = tier.pick(5, 6);
    stages.push(stage("tag-words", words(18, l), format!("every word of <= {l} bytes over the 15 tags, 0f, 80, ff"), |ctx, i| {
        let b = nth_word(&SYM, i);
        c03_bytes(ctx, &b, false).map_err(|m| at_bytes(&b, m))
    }));
    let h = |s: &str| unhex(s);
    let toks: Vec<Vec<u8>> = vec![
        h("0b00000000"), h("0b00000001"), h("0b00000002"), h("0b00000003"), h("0c00000000"), h("0c00000001"), h("0c00000002"),
        h("0161"), h("0162"), h("00"), h("02c3a9"), h("01c3"), h("03"), h("09"), h("0a"), h("07"), h("0200000000"),
        h("020000000101"), h("0d0000000161"), h("0e00000002c3a9"), h("00ffffffffffffffffffffffffffffffff"), h("0f"),
        h("0516a5d9d331000f5b79578ce56bd157f29a9056f0d6"), h("061aa5d9d331000f5b79578ce56bd157f29a9056f0d60161"),
    ];
    let l = tier.pick(4, 5);
    let nt = toks.len() as u64;
    stages.push(stage("token-words", words(nt, l), format!("every sequence of <= {l} tokens out of {nt} (container heads, keys, scalars)"), move |ctx, i| {
        let b: Vec<u8> = nth_word(&toks, i).concat();
        c03_bytes(ctx, &b, false).map_err(|m| at_bytes(&b, m))
    }));
    let enc_corpus: Vec<Vec<u8>> = corpus().iter().map(|t| enc(t).unwrap()).collect();
    let mut args_corpus: Vec<Vec<u8>> = vec![enc_args(&corpus()[..4]).unwrap(), enc_args(&[]).unwrap(), enc_args(&[T::List(vec![T::None])]).unwrap()];
    // truncation, substitution, insertion, deletion at every offset
    let idx = |c: &[Vec<u8>]| -> Vec<(usize, usize)> {
        c.iter().enumerate().flat_map(|(k, b)| (0..=b.len()).map(move |p| (k, p))).collect()
    };
    let places = idx(&enc_corpus);
    let c2 = enc_corpus.clone();
    stages.push(stage(
        "mutations",
        places.len() as u64 * 514,
        format!("every truncation, byte deletion, byte substitution (256) and insertion (256) in {} encodings", c2.len()),
        move |ctx, i| {
            let (k, p) = places[(i / 514) as usize];
            let Some(b) = mutate(&c2[k], p, i % 514) else { return Ok(()) };
            let typed = i % 514 < 2;
            c03_bytes(ctx, &b, typed).map_err(|m| at_bytes(&b, m))
        },
    ));
    args_corpus.push(enc_args(&[T::Tup(vec![("a".into(), T::Int(1))]), T::True]).unwrap());
    let places = idx(&args_corpus);
    let c2 = args_corpus.clone();
    stages.push(stage("argument-mutations", places.len() as u64 * 514, "the same for 4 argument lists", move |ctx, i| {
        let (k, p) = places[(i / 514) as usize];
        let Some(b) = mutate(&c2[k], p, i % 514) else { return Ok(()) };
        ctx.state(&b);
        c03_args(ctx, &b).map_err(|m| at_bytes(&b, m))
    }));
    if tier == Tier::Thorough {
        // every pair of byte substitutions with interesting values in the short encodings
        let short_c: Vec<Vec<u8>> = enc_corpus.iter().filter(|b| b.len() <= 34).cloned().collect();
        const V: [u8; 22] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x20, 0x7f, 0x80, 0x81, 0xff];
        let mut pl = vec![];
        for (k, b) in short_c.iter().enumerate() {
            for p in 0..b.len() {
                for q in p + 1..b.len() {
                    pl.push((k, p, q));
                }
            }
        }
        stages.push(stage("double-mutations", pl.len() as u64 * 484, "every pair of substitutions by 22 values in encodings of <= 34 bytes", move |ctx, i| {
            let (k, p, q) = pl[(i / 484) as usize];
            let mut b = short_c[k].clone();
            b[p] = V[(i % 22) as usize];
            b[q] = V[(i / 22 % 22) as usize];
            c03_bytes(ctx, &b, false).map_err(|m| at_bytes(&b, m))
        }));
    }
    // length fields
    let lens: Vec<u32> = (0..48u32)
        .chain((6..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1]))
        .chain([u32::MAX - 5, u32::MAX - 4, u32::MAX - 1, u32::MAX])
        .collect();
    let nl = lens.len() as u64;
    stages.push(stage("length-fields", nl * 48 * 6, "48 + 82 length or count values x 0..48 bytes present x 6 length-carrying layouts, allocation bounded", move |ctx, i| {
        let (n, have, kind) = (lens[(i % nl) as usize], (i / nl % 48) as usize, i / nl / 48);
        let mut b = match kind {
            0 => vec![2],
            1 => vec![13],
            2 => vec![14],
            3 => vec![11],
            4 => vec![12],
            _ => vec![],
        };
        b.extend(n.to_be_bytes());
        match kind {
            4 => (0..have).for_each(|j| b.extend([1, b'A' + j as u8, 3])),
            _ => b.extend(vec![3u8; have]),
        }
        ctx.state(&b);
        if kind == 5 {
            c03_args(ctx, &b)
        } else {
            c03_bytes(ctx, &b, have % 16 == 0)
        }
        .map_err(|m| at_bytes(&b, m))
    }));
    for fm in families(tier) {
        if ["counts", "beside", "key-orders", "odd-one-out", "blocks", "wrapper-words"].contains(&fm.name) {
            let at = fm.at;
            let step = if fm.name == "odd-one-out" { tier.pick(3, 1) } else { 1 };
            stages.push(stage(
                &format!("well-formed-{}", fm.name),
                fm.n / step,
                format!("encodings, complete and one byte short: {} (every {step}th)", fm.bounds),
                move |ctx, i| {
                    let t = at(i * step);
                    let Some(mut b) = enc(&t) else { return Ok(()) };
                    ctx.state(&b);
                    c03_bytes(ctx, &b, i % 16 == 0).map_err(|m| at_bytes(&b, m))?;
                    b.pop();
                    c03_bytes(ctx, &b, false).map_err(|m| at_bytes(&b, m))
                },
            ));
        }
    }
    stages.push(stage("argument-counts", 1100, "argument lists of every count < 1100, complete and one byte short", |ctx, i| {
        let menu = beside();
        let a: Vec<T> = (0..i as usize).map(|k| menu[k * 5 % menu.len()].clone()).collect();
        let mut b = enc_args(&a).unwrap();
        c03_args(ctx, &b).map_err(|m| at_bytes(&b, m))?;
        b.pop();
        c03_args(ctx, &b).map_err(|m| at_bytes(&b, m))
    }));
    stages.push(stage("large-inputs", 12, "well-formed and truncated inputs of 64 KiB .. 1 MiB", |ctx, i| {
        let n = [65536usize, 300_000, 1 << 20][(i / 4) as usize];
        let mut b = match i % 4 {
            0 => enc(&T::Buf(pattern(n, 2))).unwrap(),
            1 => enc(&T::List(vec![T::True; n])).unwrap(),
            2 => enc(&T::Utf8(text_of(n, 2))).unwrap(),
            _ => enc(&T::List(vec![T::Buf(vec![1; 3]); n / 8])).unwrap(),
        };
        c03_bytes(ctx, &b, true)?;
        b.pop();
        c03_bytes(ctx, &b, false)
    }));
    // text
    const UB: [u8; 22] = [0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xf8, 0xff];
    let nb = words(22, 4);
    stages.push(stage("text-bytes", (nb + 65536) * 3, "every byte pair, every word of <= 4 bytes over 22 UTF-8 boundary bytes: as ASCII, UTF-8 and name", move |ctx, i| {
        let (kind, j) = (i % 3, i / 3);
        let s = if j < nb { nth_word(&UB, j) } else { vec![((j - nb) / 256) as u8, ((j - nb) % 256) as u8] };
        if kind == 2 {
            let mut b = vec![s.len() as u8];
            b.extend(&s);
            ctx.state(&b);
            c03_name(ctx, &b)?;
            let mut t = unhex("061aa5d9d331000f5b79578ce56bd157f29a9056f0d6");
            t.extend(&b);
            return c03_bytes(ctx, &t, false).map_err(|m| at_bytes(&t, m));
        }
        let mut b = vec![13 + kind as u8];
        b.extend((s.len() as u32).to_be_bytes());
        b.extend(&s);
        c03_bytes(ctx, &b, false).map_err(|m| at_bytes(&b, m))
    }));
    stages.push(stage("name-lengths", 256 * 3 * 3, "names: every length byte x content short, exact, long; standalone, contract, key", |ctx, i| {
        let (n, d, k) = ((i / 9) as usize, i % 3, i / 3 % 3);
        let mut nm = vec![n as u8];
        nm.extend(vec![b'q'; (n + d as usize).saturating_sub(1)]);
        let b = match k {
            0 => nm,
            1 => [unhex("0616a5d9d331000f5b79578ce56bd157f29a9056f0d6"), nm].concat(),
            _ => [unhex("0c00000001"), nm, vec![3]].concat(),
        };
        ctx.state(&b);
        if k == 0 {
            c03_name(ctx, &b)?;
        }
        c03_bytes(ctx, &b, false).map_err(|m| at_bytes(&b, m))
    }));
    stages.push(stage("versions", 256 * 2 * 3, "principals with every version byte, three hashes", |ctx, i| {
        let mut b = vec![5 + (i % 2) as u8, (i / 2 % 256) as u8];
        b.extend(pattern(20, [0, 1, 2][(i / 512) as usize]));
        if i % 2 == 1 {
            b.extend([2, b'o', b'k']);
        }
        c03_bytes(ctx, &b, true).map_err(|m| at_bytes(&b, m))
    }));
    let deep = tier.pick(300u64, 1000);
    stages.push(stage("deep", deep * 5 * 2, format!("nesting depth 1..={deep}, complete and cut short"), |ctx, i| {
        let (d, k, cut) = (i / 10 + 1, i % 5, i / 5 % 2 == 1);
        let mut t = T::None;
        for _ in 0..d {
            t = wrap(k, t);
        }
        let mut b = enc(&t).unwrap();
        if cut {
            b.pop();
        }
        c03_bytes(ctx, &b, false).map_err(|m| at_bytes(&b, m))
    }));
    Check {
        id: "C03",
        rule: "one case = one byte string; every decoder's verdict, value, re-encoding and allocation compared with a strict reference parser",
        assumptions: assume(&["byte strings outside the enumerated families behave like their enumerated neighbours", "tuples repeating a key are accepted or refused, consistently"]),
        stages,
        isolated: vec![Isolated {
            key: "deep-nesting".into(),
            what: "decoding 200000 nested optionals (bytes 0a repeated) overflows the stack".into(),
            case: Box::new(|ctx| {
                let mut b = vec![0x0a; 200_000];
                b.push(0x09);
                let r = ctx.sut("decode_clarity_type", || decode_clarity_type(&b).map(|v| std::mem::forget(v)).is_ok())?;
                let _ = r;
                Ok(())
            }),
        }],
    }
}

fn mutate(src: &[u8], p: usize, op: u64) -> Option<Vec<u8>> {
    let mut b = src.to_vec();
    match op {
        0 => b.truncate(p),
        1 => {
            if p >= b.len() {
                return None;
            }
            b.remove(p);
        }
        2..=257 => *b.get_mut(p)? = (op - 2) as u8,
        _ => b.insert(p, (op - 258) as u8),
    }
    Some(b)
}

// ------------------------------------------------------------------ C04

fn cast_ok(target: u8, v: Dyn) -> Option<Option<T>> {
    macro_rules! c { ($t:ident, $v:expr) => { $v.cast::<$t>().ok().map(|x| reify(&x)) } }
    by_tag!(target, c, v)
}
fn cast_as_ok(target: u8, v: &Dyn) -> Option<Option<T>> {
    macro_rules! c { ($t:ident, $v:expr) => { $v.cast_as::<$t>().ok().map(|x| reify(x)) } }
    by_tag!(target, c, v)
}

fn c04_cast(ctx: &mut Ctx, t: &T) -> Result<(), String> {
    for target in 0..15u8 {
        let want = (tag(t) == target).then(|| Some(t.clone()));
        let g = ctx.sut("cast_as", || cast_as_ok(target, &build(t)))?;
        ctx.same(&format!("cast_as to type {target}"), &g, &want)?;
        let g = ctx.sut("cast", || cast_ok(target, build(t)))?;
        ctx.same(&format!("cast to type {target}"), &g, &want)?;
        macro_rules! pay {
            ($w:ident) => {{
                macro_rules! ca { ($x:ident, $t:expr) => { $w::new(build($t)).cast_as::<$x>().ok().map(|x| reify(x)) } }
                macro_rules! co { ($x:ident, $t:expr) => { $w::new(build($t)).cast::<$x>().ok().map(|x| reify(&x)) } }
                let g = ctx.sut("cast_as", || by_tag!(target, ca, t))?;
                ctx.same(&format!("{} payload cast_as to type {target}", stringify!($w)), &g, &want)?;
                let g = ctx.sut("cast", || by_tag!(target, co, t))?;
                ctx.same(&format!("{} payload cast to type {target}", stringify!($w)), &g, &want)?;
            }};
        }
        pay!(ResponseOk);
        pay!(ResponseErr);
        pay!(OptionalSome);
    }
    // the two types without a tag
    let g = ctx.sut("cast_as", || build(t).cast_as::<LengthPrefixedStr>().is_ok() || build(t).cast_as::<FnArguments>().is_ok())?;
    ctx.holds("cast to an unrelated type succeeded", !g)
}

fn c04_term(ctx: &mut Ctx, t: &T) -> Result<(), String> {
    let (v, c) = content(ctx, t)?;
    let eq = ctx.sut("eq", || typed_eq(tag(t), v.as_ref(), c.as_ref()) && typed_eq(tag(t), v.as_ref(), v.as_ref()))?;
    ctx.holds("value unequal to its clone or to itself", eq)
}

/// Every way of reading a value gives its content back; the value and a clone of it.
fn content(ctx: &mut Ctx, t: &T) -> Result<(Dyn, Dyn), String> {
    ctx.state(format!("{t:?}").as_bytes());
    ctx.sample(|| show(t));
    let v = ctx.sut("new", || build(t))?;
    let r = ctx.sut("value", || reify(v.as_ref()))?;
    ctx.same("content", &r.as_ref(), &Some(t))?;
    let c = ctx.sut("clone", || v.clone())?;
    let r = ctx.sut("value", || reify(c.as_ref()))?;
    ctx.same("content of clone", &r.as_ref(), &Some(t))?;
    let r = ctx.sut("into_value", || consume(t, build(t)))?;
    ctx.same("content by consumption", &r.as_ref(), &Some(t))?;
    let (a, b) = ctx.sut("iterate/convert", || convert(t))?;
    ctx.same("content by iteration", &a.as_ref(), &Some(t))?;
    ctx.same("content by native conversion", &b.as_ref(), &Some(t))?;
    let r = ctx.sut("value", || reify(v.as_ref()))?;
    ctx.same("content afterwards", &r.as_ref(), &Some(t))?;
    Ok((v, c))
}

/// Content through `into_value`, recursively.
fn consume(t: &T, v: Dyn) -> Option<T> {
    Some(match t {
        T::Int(_) => T::Int(v.cast::<Int>().ok()?.into_value()),
        T::UInt(_) => T::UInt(v.cast::<UInt>().ok()?.into_value()),
        T::Buf(_) => T::Buf(v.cast::<Buffer>().ok()?.into_value()),
        T::True => v.cast::<True>().ok()?.into_value().then_some(T::True)?,
        T::False => (!v.cast::<False>().ok()?.into_value()).then_some(T::False)?,
        T::Std(_) => T::Std(v.cast::<PrincipalStandard>().ok()?.into_value()),
        T::Con(..) => {
            let (a, n) = v.cast::<PrincipalContract>().ok()?.into_value();
            T::Con(a, n)
        }
        T::Ok(x) => T::Ok(Box::new(consume(x, v.cast::<ResponseOk>().ok()?.into_value())?)),
        T::Err(x) => T::Err(Box::new(consume(x, v.cast::<ResponseErr>().ok()?.into_value())?)),
        T::Some(x) => T::Some(Box::new(consume(x, v.cast::<OptionalSome>().ok()?.into_value())?)),
        T::None => {
            v.cast::<OptionalNone>().ok()?.into_value();
            T::None
        }
        T::List(x) => {
            let e = v.cast::<List>().ok()?.into_value();
            if e.len() != x.len() {
                return None;
            }
            T::List(e.into_iter().zip(x).map(|(e, x)| consume(x, e)).collect::<Option<_>>()?)
        }
        T::Tup(x) => {
            let e = v.cast::<Tuple>().ok()?.into_value();
            if e.len() != x.len() {
                return None;
            }
            T::Tup(e.into_iter().zip(x).map(|((k, e), (_, x))| Some((k, consume(x, e)?))).collect::<Option<_>>()?)
        }
        T::Ascii(_) => T::Ascii(v.cast::<StringAscii>().ok()?.into_value()),
        T::Utf8(_) => T::Utf8(v.cast::<StringUtf8>().ok()?.into_value()),
    })
}

/// Content through IntoIterator and through From/Into, where the type has them.
fn convert(t: &T) -> (Option<T>, Option<T>) {
    let same = || (Some(t.clone()), Some(t.clone()));
    match t {
        T::Int(x) => {
            let a: i128 = Int::from(*x).into();
            (Some(t.clone()), Some(T::Int(a)))
        }
        T::UInt(x) => {
            let a: u128 = UInt::from(*x).into();
            (Some(t.clone()), Some(T::UInt(a)))
        }
        T::Buf(x) => {
            let it: Vec<u8> = Buffer::new(x.clone()).into_iter().collect();
            let a: Vec<u8> = Buffer::from(x.clone()).into();
            let b: Vec<u8> = Buffer::from(&x[..]).into();
            (Some(T::Buf(it)), (a == b).then_some(T::Buf(a)))
        }
        T::Std(x) => {
            let a: String = PrincipalStandard::from(x.clone()).into();
            let b: String = PrincipalStandard::from(x.as_str()).into();
            (Some(t.clone()), (a == b).then_some(T::Std(a)))
        }
        T::Con(x, y) => {
            let a = PrincipalContract::from((x.clone(), y.clone())).into_value();
            let b = PrincipalContract::from((x.as_str(), y.as_str())).into_value();
            (Some(t.clone()), (a == b).then_some(T::Con(a.0, a.1)))
        }
        T::List(x) => {
            let l = List::new(x.iter().map(build).collect());
            (l.into_iter().map(|e| reify(e.as_ref())).collect::<Option<Vec<_>>>().map(T::List), Some(t.clone()))
        }
        T::Tup(x) => {
            let l = Tuple::new(x.iter().map(|(k, v)| (k.clone(), build(v))).collect());
            let keys: Vec<String> = l.keys().cloned().collect();
            let vals: Option<Vec<T>> = l.values().map(|e| reify(e.as_ref())).collect();
            let kv = vals.map(|v| T::Tup(keys.into_iter().zip(v).collect()));
            (
                l.into_iter().map(|(k, e)| Some((k, reify(e.as_ref())?))).collect::<Option<Vec<_>>>().map(T::Tup),
                kv,
            )
        }
        _ => same(),
    }
}

fn equality_pool(tier: Tier) -> Vec<T> {
    let mut p: Vec<T> = vec![];
    for x in [0i128, 1, -1, 2, 10, 255, 256, i128::MAX, i128::MIN, 1 << 64] {
        p.push(T::Int(x));
        p.push(T::UInt(x as u128));
    }
    let bufs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![1], vec![1, 0], vec![0, 1], vec![255], vec![0x10], vec![1, 16]];
    p.extend(bufs.iter().cloned().map(T::Buf));
    p.extend([T::True, T::False, T::None]);
    let addrs = [
        ADDR.to_string(),
        ADDR_T.to_string(),
        address(&[0; 20], 22).unwrap(),
        address(&[0; 20], 26).unwrap(),
        address(&[1; 20], 22).unwrap(),
        // the same principals in other spellings
        format!("S{}", ADDR[1..].to_lowercase()),
        ADDR.replacen("0", "O", 1),
    ];
    p.extend(addrs.iter().cloned().map(T::Std));
    for a in &addrs {
        for n in ["", "a", "a.b", "b", "A"] {
            p.push(T::Con(a.clone(), n.into()));
        }
    }
    for s in ["", "a", "b", "ab", "a b", "a\" \"b", "\"", "\\", "\n", "1", "u1", "none", ") (b", "A", " a", "a ", "0x01", "é", "e\u{301}"] {
        p.push(T::Ascii(s.into()));
        p.push(T::Utf8(s.into()));
    }
    // containers whose texts collide
    let el = vec![T::Ascii("a\" \"b".into()), T::Ascii("a".into()), T::Ascii("b".into()), T::Int(1), T::UInt(1), T::None, T::True, T::Utf8("a".into()), T::Buf(vec![1])];
    let mut lists = vec![vec![]];
    for a in &el {
        lists.push(vec![a.clone()]);
        for b in &el {
            lists.push(vec![a.clone(), b.clone()]);
        }
    }
    lists.push(vec![T::None, T::None, T::None]);
    lists.push(vec![T::List(vec![T::None]), T::None]);
    lists.push(vec![T::List(vec![T::None, T::None])]);
    let keys = ["a", "b", "A", "a 1) (b", "", "ab"];
    for k in keys {
        for v in &el {
            p.push(T::Tup(vec![(k.into(), v.clone())]));
        }
        for l in keys {
            if k != l {
                for v in &el[..4] {
                    for w in &el[2..5] {
                        p.push(T::Tup(vec![(k.into(), v.clone()), (l.into(), w.clone())]));
                    }
                }
            }
        }
    }
    p.push(T::Tup(vec![]));
    p.push(T::Tup(vec![("a".into(), T::Int(1)), ("b".into(), T::Int(2)), ("c".into(), T::Int(3))]));
    p.push(T::Tup(vec![("c".into(), T::Int(3)), ("b".into(), T::Int(2)), ("a".into(), T::Int(1))]));
    p.push(T::Tup(vec![("c".into(), T::Int(3)), ("b".into(), T::Int(1)), ("a".into(), T::Int(2))]));
    p.extend(lists.into_iter().map(T::List));
    let base = p.clone();
    let step = tier.pick(5, 2);
    for t in base.iter().step_by(step) {
        p.push(T::Ok(Box::new(t.clone())));
        p.push(T::Err(Box::new(t.clone())));
        p.push(T::Some(Box::new(t.clone())));
        p.push(T::List(vec![t.clone()]));
        p.push(T::Tup(vec![("k".into(), t.clone())]));
    }
    p
}

/// Pairs of values that differ in one place.
fn equality_edits(tier: Tier) -> Vec<(T, T)> {
    let mut v = vec![];
    let mut lens: Vec<usize> = (1..=40).collect();
    lens.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
    if tier == Tier::Thorough {
        lens.extend([511, 512, 513, 1023, 1024, 1025, 4096]);
    }
    for &n in &lens {
        let base = pattern(n, 2);
        for p in 0..n {
            for x in [0x01, 0x80] {
                let mut b = base.clone();
                b[p] ^= x;
                v.push((T::Buf(base.clone()), T::Buf(b)));
            }
        }
        v.push((T::Buf(base.clone()), T::Buf(base[1..].to_vec())));
        v.push((T::Buf(base.clone()), T::Buf(base[..n - 1].to_vec())));
        v.push((T::Buf(vec![0; n]), T::Buf(vec![0; n - 1])));
        let text: String = (0..n).map(|j| (b'a' + (j % 26) as u8) as char).collect();
        for p in 0..n {
            for c in ["A", " "] {
                let mut b = text.clone();
                b.replace_range(p..p + 1, c);
                v.push((T::Ascii(text.clone()), T::Ascii(b.clone())));
                if n <= 128 {
                    v.push((T::Con(ADDR.into(), text.clone()), T::Con(ADDR.into(), b.clone())));
                    v.push((T::Tup(vec![(text.clone(), T::None)]), T::Tup(vec![(b.clone(), T::None)])));
                }
                v.push((T::Utf8(text.clone()), T::Utf8(b)));
            }
        }
        if n > 65 {
            continue;
        }
        let list: Vec<T> = (0..n).map(|j| T::UInt(j as u128)).collect();
        for p in 0..n {
            for x in [T::UInt(999), T::Int(p as i128), T::None] {
                let mut l = list.clone();
                l[p] = x;
                let tup = |l: &[T]| T::Tup(l.iter().enumerate().map(|(j, t)| (format!("k{j}"), t.clone())).collect());
                v.push((tup(&list), tup(&l)));
                v.push((T::List(list.clone()), T::List(l)));
            }
            if p > 0 {
                let mut l = list.clone();
                l.swap(p - 1, p);
                v.push((T::List(list.clone()), T::List(l)));
            }
        }
    }
    let h = pattern(20, 2);
    for p in 0..20 {
        for bit in 0..8 {
            let mut g = h.clone();
            g[p] ^= 1 << bit;
            for ver in VERSIONS {
                let (a, b) = (address(&h, ver).unwrap(), address(&g, ver).unwrap());
                v.push((T::Std(a.clone()), T::Std(b.clone())));
                v.push((T::Con(a, "c".into()), T::Con(b, "c".into())));
            }
        }
    }
    for (i, x) in VERSIONS.iter().enumerate() {
        for y in &VERSIONS[..i] {
            v.push((T::Std(address(&h, *x).unwrap()), T::Std(address(&h, *y).unwrap())));
        }
    }
    for bit in 0..128 {
        for b in [0u128, u128::MAX, 0x5555 << 60] {
            v.push((T::UInt(b), T::UInt(b ^ 1 << bit)));
            v.push((T::Int(b as i128), T::Int((b ^ 1 << bit) as i128)));
        }
    }
    for d in 1..=60 {
        for k in 0..7 {
            for (a, b) in [(T::Int(1), T::Int(2)), (T::Int(1), T::UInt(1)), (T::Ascii("x".into()), T::Utf8("x".into())), (T::None, T::True)] {
                let (mut x, mut y) = (a, b);
                for _ in 0..d {
                    x = wrap(k, x);
                    y = wrap(k, y);
                }
                v.push((x, y));
            }
        }
    }
    v
}

/// Sizes, and for each the places at which a copy is changed.
fn big_edits(tier: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for k in 9..=tier.pick(16u32, 20) {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            let mut at: Vec<usize> = (0..16).map(|j| n * j / 16).chain((0..=k).flat_map(|j| [(1usize << j) - 1, 1 << j])).chain((1..=k).map(|j| n.saturating_sub(1 << j))).collect();
            at.push(n - 1);
            at.retain(|p| *p < n);
            at.sort();
            at.dedup();
            v.extend(at.into_iter().map(|p| (n, p)));
        }
    }
    v
}

fn c04(tier: Tier) -> Check {
    let mut stages = term_stages(tier, c04_term, |f| !["address-edits"].contains(&f.name));
    let e = Edits::new(ADDR, &"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZaopz. -é\n".chars().collect::<Vec<_>>());
    let ne = e.count();
    stages.push(stage(
        "any-text",
        ne + 0x250 * 4,
        "principals of any text through new, From, clone, value and into_value: every single edit of an address, its lower case, and every character up to U+024F in four places of address and name",
        move |ctx, i| {
            let texts = if i < ne {
                let a = e.nth(i);
                vec![T::Std(a.clone()), T::Con(a, "c".into()), T::Std(e.nth(i).to_lowercase()), T::Con(e.nth(i).to_lowercase(), "C".into())]
            } else {
                let (c, k) = (char::from_u32(((i - ne) / 4) as u32).unwrap(), (i - ne) % 4);
                let s = match k {
                    0 => c.to_string(),
                    1 => format!("{c}{ADDR}"),
                    2 => format!("{ADDR}{c}"),
                    _ => format!("a{c}B{c}c"),
                };
                vec![T::Std(s.clone()), T::Con(s.clone(), "n".into()), T::Con(ADDR.into(), s.clone()), T::Con(s.clone(), s)]
            };
            for t in &texts {
                content(ctx, t).map_err(|m| format!("{}: {m}", show(t)))?;
            }
            Ok(())
        },
    ));
    let sp = Space::new(leaves(), &["b", "a"], 2, 1);
    let n = sp.count();
    stages.push(stage("casts", n, "every term over 11 leaves, width <= 2, depth <= 1, cast by value and by reference to all 15 types, directly and as payload of some/ok/err", move |ctx, i| {
        let t = sp.nth(i);
        ctx.state(format!("{t:?}").as_bytes());
        c04_cast(ctx, &t).map_err(|m| format!("{}: {m}", show(&t)))
    }));
    let pool = equality_pool(tier);
    let mut groups: Vec<Vec<T>> = vec![vec![]; 15];
    for t in pool {
        groups[tag(&t) as usize].push(t);
    }
    let sizes: Vec<u64> = groups.iter().map(|g| (g.len() * g.len()) as u64).collect();
    let total: u64 = sizes.iter().sum();
    stages.push(stage(
        "equality",
        total,
        format!("every same-type pair out of {} values chosen to collide in text, order or spelling", groups.iter().map(Vec::len).sum::<usize>()),
        move |ctx, mut i| {
            let mut g = 0;
            while i >= sizes[g] {
                i -= sizes[g];
                g += 1;
            }
            let n = groups[g].len() as u64;
            let (a, b) = (&groups[g][(i / n) as usize], &groups[g][(i % n) as usize]);
            if enc(a).is_none() || enc(b).is_none() {
                return Ok(()); // no Clarity value is denoted
            }
            let got = ctx.sut("eq", || {
                let (x, y) = (build(a), build(b));
                typed_eq(tag(a), x.as_ref(), y.as_ref())
            })?;
            let ne = ctx.sut("ne", || {
                let (x, y) = (build(a), build(b));
                macro_rules! d { ($t:ident, $a:expr, $b:expr) => { $a.as_any().downcast_ref::<$t>().unwrap() != $b.as_any().downcast_ref::<$t>().unwrap() } }
                by_tag!(tag(a), d, x, y)
            })?;
            ctx.holds("== and != agree", got != ne)?;
            ctx.same("==", &got, &(canon(a) == canon(b))).map_err(|m| format!("{} vs {}: {m}", show(a), show(b)))
        },
    ));
    let ed = equality_edits(tier);
    stages.push(stage(
        "equality-edits",
        ed.len() as u64,
        "long, wide and deep values against copies changed in one place: every position of buffers, strings, lists, tuples, names and hashes, leaves under 1..=60 wrappers, each also inside a list, a tuple and an optional",
        move |ctx, i| {
            let (a, b) = &ed[i as usize];
            ctx.state(format!("{}|{}", show(a), i).as_bytes());
            for w in 0..4u64 {
                let f = |t: &T| match w {
                    0 => t.clone(),
                    1 => T::List(vec![T::None, t.clone()]),
                    2 => T::Tup(vec![("z".into(), t.clone()), ("a".into(), T::True)]),
                    _ => T::Some(Box::new(t.clone())),
                };
                let (x, y) = (f(a), f(b));
                let r = ctx.sut("eq", || {
                    let (p, q, r) = (build(&x), build(&y), build(&x));
                    let e = |l: &Dyn, r: &Dyn| typed_eq(tag(&x), l.as_ref(), r.as_ref());
                    (e(&p, &q), e(&q, &p), e(&p, &r), e(&p, &p.clone()))
                })?;
                ctx.same("x == y, y == x, x == copy, x == clone", &r, &(false, false, true, true)).map_err(|m| format!("{} vs {}: {m}", show(&x), show(&y)))?;
            }
            Ok(())
        },
    ));
    let bs = big_edits(tier);
    stages.push(stage(
        "big-equality",
        bs.len() as u64 * 6,
        format!("buffers, strings, lists, tuples and argument lists of 2^k-1, 2^k, 2^k+1 bytes up to {} against copies changed in one place: the ends, each power of two, each sixteenth", tier.pick("2^16", "2^20")),
        move |ctx, i| {
            let (n, p) = bs[(i / 6) as usize];
            let kind = i % 6;
            let bytes = |flip: bool| {
                let mut b = pattern(n, 2);
                b.iter_mut().for_each(|x| *x &= 0x7f);
                b[p] = b'm' + u8::from(flip);
                b
            };
            let value = |flip: bool| {
                let b = bytes(flip);
                match kind {
                    0 => T::Buf(b),
                    1 => T::Ascii(String::from_utf8(b).unwrap()),
                    2 => T::Utf8(String::from_utf8(b).unwrap()),
                    // chunks of 16 bytes, so that the encoding is about as long
                    3 | 5 => T::List(b.chunks(16).map(|c| T::Buf(c.to_vec())).collect()),
                    _ => T::Tup(b.chunks(16).enumerate().map(|(j, c)| (format!("k{j}"), T::Buf(c.to_vec()))).collect()),
                }
            };
            let (x, y) = (value(false), value(true));
            ctx.state(&[&(n as u32).to_be_bytes()[..], &(p as u32).to_be_bytes(), &[kind as u8]].concat());
            let r = if let (5, T::List(a), T::List(b)) = (kind, &x, &y) {
                ctx.sut("eq", || {
                    let (p, q, r) = (build_args(a), build_args(b), build_args(a));
                    (p == q, q == p, p == r, p == p.clone())
                })?
            } else {
                ctx.sut("eq", || {
                    let (p, q, r) = (build(&x), build(&y), build(&x));
                    let e = |l: &Dyn, r: &Dyn| typed_eq(tag(&x), l.as_ref(), r.as_ref());
                    (e(&p, &q), e(&q, &p), e(&p, &r), e(&p, &p.clone()))
                })?
            };
            ctx.same("x == y, y == x, x == copy, x == clone", &r, &(false, false, true, true)).map_err(|m| format!("{n} bytes, kind {kind}, differing at {p}: {m}"))
        },
    ));
    stages.push(stage("arguments", 11u64.pow(3), "argument lists of <= 3 leaves: content by reference, consumption, iteration, clone", |ctx, i| {
        let l = leaves();
        let a = nth_word(&l, i);
        let r = ctx.sut("value", || reify_args(&build_args(&a)))?;
        ctx.same("value", &r.as_ref(), &Some(&a))?;
        let r = ctx.sut("clone", || reify_args(&build_args(&a).clone()))?;
        ctx.same("clone", &r.as_ref(), &Some(&a))?;
        let r = ctx.sut("into_value", || build_args(&a).into_value().iter().map(|e| reify(e.as_ref())).collect::<Option<Vec<_>>>())?;
        ctx.same("into_value", &r.as_ref(), &Some(&a))?;
        let r = ctx.sut("into_iter", || build_args(&a).into_iter().map(|e| reify(e.as_ref())).collect::<Option<Vec<_>>>())?;
        ctx.same("into_iter", &r.as_ref(), &Some(&a))
    }));
    let al = few_leaves();
    let na = words(al.len() as u64, 2);
    stages.push(stage("argument-equality", na * na, format!("every pair of argument lists of <= 2 out of {} leaves", al.len()), move |ctx, i| {
        let (a, b) = (nth_word(&al, i % na), nth_word(&al, i / na));
        let (Some(x), Some(y)) = (enc_args(&a), enc_args(&b)) else { return Ok(()) };
        let r = ctx.sut("eq", || (build_args(&a) == build_args(&b), build_args(&a) != build_args(&b)))?;
        ctx.same("== and !=", &r, &(x == y, x != y)).map_err(|m| format!("{a:?} vs {b:?}: {m}"))
    }));
    let names: Vec<String> = ["", "a", "A", "b", "aa", "a ", " a", "a.", "a-b", "a_b", "ab", "ba", "é", "e\u{301}", "É", "\u{0}", "a\u{0}", "name1", "name01"].iter().map(|s| s.to_string()).chain((120..=128).map(|n| "x".repeat(n))).collect();
    let nn = names.len() as u64;
    stages.push(stage("name-equality", nn * nn, format!("every pair out of {nn} names"), move |ctx, i| {
        let (a, b) = (&names[(i % nn) as usize], &names[(i / nn) as usize]);
        let r = ctx.sut("eq", || (LengthPrefixedStr::new(a.clone()) == LengthPrefixedStr::new(b.clone()), LengthPrefixedStr::new(a.clone()) != LengthPrefixedStr::new(b.clone())))?;
        ctx.same("== and !=", &r, &(a == b, a != b)).map_err(|m| format!("{a:?} vs {b:?}: {m}"))
    }));
    stages.push(stage("name-type", 300, "names by From<String>, From<&str>, clone, value, into_value", |ctx, i| {
        let s = text_of(i as usize, 1 + i as usize % 4);
        let r = ctx.sut("name", || {
            let n = LengthPrefixedStr::from(s.as_str());
            let m = LengthPrefixedStr::from(s.clone());
            (n == m && n == n.clone(), n.value().clone(), m.into_value())
        })?;
        ctx.same("name", &r, &(true, s.clone(), s))
    }));
    let (p, m) = macro_pairs();
    stages.push(stage("macro", p.len() as u64, "every arm of clarity!", move |ctx, i| {
        let i = i as usize;
        let r = ctx.sut("clarity!", || reify((m[i])().as_ref()))?;
        ctx.same("clarity!", &r, &Some(p[i].clone()))
    }));
    stages.push(stage("macro-args", 4, "clarity!(FnArguments ..) and clarity!(LengthPrefixedStr ..)", |ctx, i| {
        let (got, want) = match i {
            0 => (ctx.sut("clarity!", || reify_args(&clarity!(FnArguments)))?, vec![]),
            1 => (ctx.sut("clarity!", || reify_args(&clarity!(FnArguments, clarity!(Int, 1))))?, vec![T::Int(1)]),
            2 => (
                ctx.sut("clarity!", || reify_args(&clarity!(FnArguments, clarity!(Int, 1), clarity!(True), clarity!(UInt, 2))))?,
                vec![T::Int(1), T::True, T::UInt(2)],
            ),
            _ => {
                let n = ctx.sut("clarity!", || clarity!(LengthPrefixedStr, "abc").into_value())?;
                return ctx.same("clarity!(LengthPrefixedStr)", &n.as_str(), &"abc");
            }
        };
        ctx.same("clarity!(FnArguments)", &got, &Some(want))
    }));
    Check {
        id: "C04",
        rule: "one case = one value (or pair, or value and cast target); accessors, clones, conversions, casts and equality compared with the term the value was built from",
        assumptions: assume(&["equality is judged only for values that have an encoding", "casts of larger values behave like casts of the enumerated ones of the same type"]),
        stages,
        isolated: vec![],
    }
}

type Maker = fn() -> Dyn;
fn macro_pairs() -> (Vec<T>, Vec<Maker>) {
    let t: Vec<T> = vec![
        T::Int(-3),
        T::UInt(9),
        T::Buf(vec![1, 2]),
        T::Buf(vec![3]),
        T::Buf(vec![]),
        T::True,
        T::False,
        T::Std(ADDR.into()),
        T::Con(ADDR.into(), "n".into()),
        T::Ok(Box::new(T::Int(1))),
        T::Err(Box::new(T::True)),
        T::Some(Box::new(T::List(vec![T::None]))),
        T::None,
        T::List(vec![]),
        T::Tup(vec![]),
        T::Ascii("s".into()),
        T::Utf8("ü".into()),
        T::List(vec![T::Int(1), T::UInt(2), T::Ascii("3".into())]),
        T::Tup(vec![("z".into(), T::Int(1)), ("a".into(), T::Tup(vec![("q".into(), T::False)]))]),
    ];
    let m: Vec<Maker> = vec![
        || Box::new(clarity!(Int, -3)),
        || Box::new(clarity!(UInt, 9)),
        || Box::new(clarity!(Buffer, [1u8, 2])),
        || Box::new(clarity!(Buffer, vec![3u8])),
        || Box::new(clarity!(Buffer)),
        || Box::new(clarity!(True)),
        || Box::new(clarity!(False)),
        || Box::new(clarity!(PrincipalStandard, ADDR)),
        || Box::new(clarity!(PrincipalContract, ADDR, "n")),
        || Box::new(clarity!(ResponseOk, clarity!(Int, 1))),
        || Box::new(clarity!(ResponseErr, clarity!(True))),
        || Box::new(clarity!(OptionalSome, clarity!(List, clarity!(OptionalNone)))),
        || Box::new(clarity!(OptionalNone)),
        || Box::new(clarity!(List)),
        || Box::new(clarity!(Tuple)),
        || Box::new(clarity!(StringAscii, "s")),
        || Box::new(clarity!(StringUtf8, "ü")),
        || Box::new(clarity!(List, clarity!(Int, 1), clarity!(UInt, 2), clarity!(StringAscii, "3"))),
        || Box::new(clarity!(Tuple, ("z", clarity!(Int, 1)), ("a", clarity!(Tuple, ("q", clarity!(False)))))),
    ];
    (t, m)
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize, usize),
    Remove(usize),
    Update(usize, usize),
    Reencode,
    CloneSwap,
}

const KEYS: [&str; 5] = ["b", "a", "", "ab", "B"];
fn vals() -> Vec<T> {
    vec![T::Int(1), T::Ascii("x".into()), T::Tup(vec![("a".into(), T::None)])]
}

fn map_insert(m: &mut Vec<(String, T)>, k: &str, v: T) {
    match m.iter_mut().find(|(q, _)| q == k) {
        Some(e) => e.1 = v,
        None => m.push((k.to_string(), v)),
    }
}

fn tuple_of(m: &[(String, T)]) -> Tuple {
    Tuple::new(m.iter().map(|(k, v)| (k.clone(), build(v))).collect())
}

fn insert_typed(t: &mut Tuple, k: &str, v: &T) {
    match v {
        T::Int(x) => t.insert(k.to_string(), Int::new(*x)),
        T::Ascii(s) => t.insert(k.to_string(), StringAscii::new(s.clone())),
        T::Tup(e) => t.insert(k.to_string(), tuple_of(e)),
        v => {
            macro_rules! d { ($t:ident, $t0:expr, $k:expr, $v:expr) => { $t0.insert($k.to_string(), $v.cast::<$t>().unwrap()) } }
            by_tag!(tag(v), d, t, k, build(v))
        }
    }
}

fn value_pool() -> Vec<T> {
    let b = Box::new;
    let e = |k: &str, t: T| (k.to_string(), t);
    let mut v = leaves();
    v.extend([
        T::Int(0),
        T::UInt(0),
        T::Buf(vec![]),
        T::Ascii("".into()),
        T::List(vec![]),
        T::List(vec![T::Int(1)]),
        T::List(vec![T::Int(1), T::Int(2)]),
        T::Tup(vec![]),
        T::Tup(vec![e("a", T::Int(1))]),
        T::Tup(vec![e("a", T::Int(2))]),
        T::Tup(vec![e("b", T::Int(1))]),
        T::Tup(vec![e("b", T::Int(1)), e("a", T::None)]),
        T::Some(b(T::None)),
        T::Some(b(T::Int(1))),
        T::Ok(b(T::Int(1))),
        T::Err(b(T::Int(1))),
        T::Ok(b(T::None)),
    ]);
    v
}

fn near_keys() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", "A", "a ", " a", "a\0", "\0a", "ab", "ba", "aB", "a-b", "a_b", "a.b", "a b", "a-", "-a", "a1", "a01", "1", "01", "é", "e\u{301}", "É", "\u{e9}\u{301}", "\u{212b}", "Å", "ß", "ss", "SS", "İ", "i", "ı", "name", "Name", "names",
        "nam",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [7, 8, 15, 16, 31, 32, 63, 64, 127] {
        for t in ["a", "b"] {
            v.push("k".repeat(n) + t);
        }
    }
    v
}

fn observe(ctx: &mut Ctx, t: &Tuple, m: &[(String, T)]) -> Result<(), String> {
    for k in KEYS {
        let want = m.iter().find(|(q, _)| q == k).map(|(_, v)| v.clone());
        let got = ctx.sut("get", || t.get(k).map(|v| reify(v.as_ref()).unwrap()))?;
        ctx.same(&format!("get({k:?})"), &got, &want)?;
    }
    for (k, v) in m.iter().filter(|e| !KEYS.contains(&e.0.as_str())) {
        let got = ctx.sut("get", || t.get(k).map(|v| reify(v.as_ref()).unwrap()))?;
        ctx.same(&format!("get({k:?})"), &got.as_ref(), &Some(v))?;
    }
    let (keys, values) = ctx.sut("keys/values", || {
        (t.keys().cloned().collect::<Vec<_>>(), t.values().map(|v| reify(v.as_ref()).unwrap()).collect::<Vec<_>>())
    })?;
    ctx.same("keys", &keys, &m.iter().map(|e| e.0.clone()).collect())?;
    ctx.same("values", &values, &m.iter().map(|e| e.1.clone()).collect())?;
    let v = ctx.sut("value", || reify(t).unwrap())?;
    ctx.same("value", &v, &T::Tup(m.to_vec()))?;
    let e = ctx.try_sut("encode", || t.encode())?;
    ctx.same("encode", &e.ok(), &enc(&T::Tup(m.to_vec())))
}

fn apply(ctx: &mut Ctx, t: &mut Tuple, m: &mut Vec<(String, T)>, op: Op) -> Result<(), String> {
    let vs = vals();
    match op {
        Op::Insert(k, v) => {
            ctx.sut("insert", || insert_typed(t, KEYS[k], &vs[v]))?;
            map_insert(m, KEYS[k], vs[v].clone());
        }
        Op::Remove(k) => {
            let got = ctx.sut("remove", || t.remove(KEYS[k]).map(|v| reify(v.as_ref()).unwrap()))?;
            let want = m.iter().position(|(q, _)| q == KEYS[k]).map(|p| m.remove(p).1);
            ctx.same("remove", &got, &want)?;
        }
        Op::Update(k, v) => {
            let got = ctx.sut("get_mut", || {
                t.get_mut(KEYS[k]).map(|r| {
                    let old = reify(r.as_ref()).unwrap();
                    *r = build(&vs[v]);
                    old
                })
            })?;
            let want = m.iter_mut().find(|(q, _)| q == KEYS[k]).map(|e| std::mem::replace(&mut e.1, vs[v].clone()));
            ctx.same("get_mut", &got, &want)?;
        }
        Op::Reencode => {
            // through the wire: same entries, ascending order
            let b = ctx.try_sut("encode", || t.encode())??;
            *t = ctx.try_sut("decode", || Tuple::decode(&b))??;
            let order = ctx.sut("keys", || t.keys().cloned().collect::<Vec<_>>())?;
            m.sort_by_key(|e| order.iter().position(|k| *k == e.0));
        }
        Op::CloneSwap => {
            // change a clone, keep the original; then go on with an unchanged clone
            let mut c = ctx.sut("clone", || t.clone())?;
            ctx.sut("mutate clone", || {
                c.remove("a");
                c.insert("b".into(), UInt::new(99));
                if let Some(v) = c.get_mut("ab") {
                    *v = Box::new(True::new());
                }
            })?;
            observe(ctx, t, m)?;
            *t = ctx.sut("clone", || t.clone())?;
        }
    }
    Ok(())
}

fn c05(tier: Tier) -> Check {
    let mut ops = vec![];
    for k in 0..3 {
        for v in 0..2 {
            ops.push(Op::Insert(k, v));
        }
        ops.push(Op::Remove(k));
        ops.push(Op::Update(k, 1));
    }
    ops.push(Op::Reencode);
    ops.push(Op::CloneSwap);
    let d = tier.pick(6u32, 7);
    let n_ops = ops.len() as u64;
    let seqs = n_ops.pow(d);
    let mut stages = vec![];
    let ops1 = ops.clone();
    stages.push(stage(
        "histories",
        seqs * 2,
        format!("every sequence of exactly {d} operations out of {n_ops} (insert, remove, in-place update on 3 colliding keys, re-encode, clone), from an empty and a 2-entry tuple; all intermediate states observed"),
        move |ctx, i| {
            let start: Vec<(String, T)> =
                if i % 2 == 0 { vec![] } else { vec![("b".into(), T::Int(7)), ("a".into(), T::Int(8))] };
            let mut m = start.clone();
            let mut t = ctx.sut("new", || tuple_of(&start))?;
            let mut r = i / 2;
            let mut trace = vec![];
            for s in 0..d {
                let op = ops1[(r % n_ops) as usize];
                r /= n_ops;
                trace.push(op);
                let tr = |m: String| format!("from {} entries after {trace:?}: {m}", start.len());
                apply(ctx, &mut t, &mut m, op).map_err(tr)?;
                // states reached by a common prefix are observed once
                if r == 0 || s + 1 == d {
                    ctx.state(format!("{m:?}").as_bytes());
                    observe(ctx, &t, &m).map_err(|m| format!("from {} entries after {trace:?}: {m}", start.len()))?;
                }
            }
            ctx.sample(|| format!("{trace:?} -> {m:?}"));
            Ok(())
        },
    ));
    let mut ops2 = vec![];
    for k in 0..5 {
        ops2.push(Op::Insert(k, 2));
        ops2.push(Op::Insert(k, 0));
        ops2.push(Op::Remove(k));
        ops2.push(Op::Update(k, 1));
    }
    let n2 = ops2.len() as u64;
    let d2 = tier.pick(5u32, 6);
    stages.push(stage(
        "five-keys",
        n2.pow(d2) * 2,
        format!("every sequence of {d2} operations out of {n2} on 5 keys, from an empty and a full tuple"),
        move |ctx, i| {
            let start: Vec<(String, T)> = if i % 2 == 0 {
                vec![]
            } else {
                KEYS.iter().enumerate().map(|(j, k)| (k.to_string(), T::Int(j as i128))).collect()
            };
            let mut m = start.clone();
            let mut t = ctx.sut("new", || tuple_of(&start))?;
            let mut r = i / 2;
            let mut trace = vec![];
            for _ in 0..d2 {
                let op = ops2[(r % n2) as usize];
                r /= n2;
                trace.push(op);
                apply(ctx, &mut t, &mut m, op).map_err(|m| format!("from {} entries after {trace:?}: {m}", start.len()))?;
            }
            ctx.state(format!("{m:?}").as_bytes());
            observe(ctx, &t, &m).map_err(|m| format!("from {} entries after {trace:?}: {m}", start.len()))
        },
    ));
    stages.push(stage("removal-orders", 720 * 2, "6 distinct entries removed in every order, then re-inserted in that order", |ctx, i| {
        let keys: Vec<String> = (0..6).map(|k| format!("key{k}")).collect();
        let mut m: Vec<(String, T)> = keys.iter().enumerate().map(|(j, k)| (k.clone(), T::UInt(j as u128))).collect();
        let mut t = ctx.sut("new", || tuple_of(&m))?;
        let perm = permutation(6, i / 2);
        for j in &perm {
            let got = ctx.sut("remove", || t.remove(&keys[*j]).map(|v| reify(v.as_ref()).unwrap()))?;
            ctx.same("remove", &got, &Some(T::UInt(*j as u128)))?;
            m.retain(|e| e.0 != keys[*j]);
            let again = ctx.sut("remove", || t.remove(&keys[*j]).is_some())?;
            ctx.holds("removed twice", !again)?;
            observe(ctx, &t, &m)?;
            if i % 2 == 1 {
                let v = T::UInt(100 + *j as u128);
                ctx.sut("insert", || insert_typed(&mut t, &keys[*j], &v))?;
                map_insert(&mut m, &keys[*j], v);
                observe(ctx, &t, &m)?;
            }
        }
        Ok(())
    }));
    let pool = value_pool();
    let np = pool.len() as u64;
    stages.push(stage("value-pairs", np * np * 2, format!("every ordered pair of {np} values of every type stored under one key, by insertion and in place, alone and between others"), move |ctx, i| {
        let (v, w, around) = (&pool[(i / 2 % np) as usize], &pool[(i / 2 / np) as usize], i % 2 == 1);
        let mut m: Vec<(String, T)> = if around { vec![("k2".into(), T::True), ("j".into(), v.clone())] } else { vec![] };
        let mut t = ctx.sut("new", || tuple_of(&m))?;
        let go = |ctx: &mut Ctx, t: &mut Tuple, m: &mut Vec<(String, T)>| -> Result<(), String> {
            for x in [v, w, v] {
                ctx.sut("insert", || insert_typed(t, "k", x))?;
                map_insert(m, "k", x.clone());
                observe(ctx, t, m)?;
            }
            for x in [w, v, w] {
                let had = ctx.sut("get_mut", || t.get_mut("k").map(|r| *r = build(x)).is_some())?;
                ctx.holds("get_mut found nothing", had)?;
                map_insert(m, "k", x.clone());
                observe(ctx, t, m)?;
            }
            let got = ctx.sut("remove", || t.remove("k").map(|v| reify(v.as_ref()).unwrap()))?;
            ctx.same("remove", &got.as_ref(), &Some(w))?;
            m.retain(|e| e.0 != "k");
            observe(ctx, t, m)
        };
        ctx.state(format!("{v:?} {w:?}").as_bytes());
        go(ctx, &mut t, &mut m).map_err(|e| format!("{} and {}: {e}", show(v), show(w)))
    }));
    let pool = value_pool();
    stages.push(stage("value-places", 15 * 3 * np * np, format!("tuples of 1..=5 entries, each place in turn holding each of {np} values of every type among entries of another: removed, overwritten or updated in place with every value, then removed and put back"), move |ctx, i| {
        let (v, w, i) = (&pool[(i % np) as usize], &pool[(i / np % np) as usize], i / np / np);
        let (how, mut p, mut n) = (i % 3, (i / 3) as usize, 1);
        while p >= n {
            p -= n;
            n += 1;
        }
        let mut m: Vec<(String, T)> = (0..n).map(|j| (format!("k{}", 9 - j), if j == p { v.clone() } else { w.clone() })).collect();
        let key = m[p].0.clone();
        let mut t = ctx.sut("new", || tuple_of(&m))?;
        let at = |e: String| format!("place {p} of {n}, {} among {}: {e}", show(v), show(w));
        match how {
            0 => {}
            1 => {
                ctx.sut("insert", || insert_typed(&mut t, &key, w))?;
                m[p].1 = w.clone();
            }
            _ => {
                let had = ctx.sut("get_mut", || t.get_mut(&key).map(|r| *r = build(w)).is_some())?;
                ctx.holds("get_mut found nothing", had).map_err(at)?;
                m[p].1 = w.clone();
            }
        }
        ctx.state(format!("{m:?}").as_bytes());
        observe(ctx, &t, &m).map_err(at)?;
        let r = ctx.sut("remove", || t.remove(&key).map(|v| reify(v.as_ref()).unwrap()))?;
        let want = m.remove(p).1;
        ctx.same("remove", &r, &Some(want.clone())).map_err(at)?;
        observe(ctx, &t, &m).map_err(at)?;
        ctx.sut("insert", || insert_typed(&mut t, &key, &want))?;
        map_insert(&mut m, &key, want);
        observe(ctx, &t, &m).map_err(at)
    }));
    let near = near_keys();
    let nk = near.len() as u64;
    stages.push(stage("near-keys", nk * nk * nk, format!("{nk} similar keys: every key looked up, removed, updated and inserted in a tuple holding every ordered pair of the others"), move |ctx, i| {
        let (a, b, q) = (&near[(i % nk) as usize], &near[(i / nk % nk) as usize], &near[(i / nk / nk) as usize]);
        if a == b {
            return Ok(());
        }
        let start = vec![(a.clone(), T::Int(1)), (b.clone(), T::Int(2))];
        let mut m = start.clone();
        let mut t = ctx.sut("new", || tuple_of(&m))?;
        let hit = m.iter().position(|e| e.0 == *q);
        let g = ctx.sut("get", || t.get(q).map(|v| reify(v.as_ref()).unwrap()))?;
        let at = |m: String| format!("{a:?}, {b:?}; {q:?}: {m}");
        ctx.same("get", &g, &hit.map(|p| m[p].1.clone())).map_err(at)?;
        let u = ctx.sut("get_mut", || t.get_mut(q).map(|r| *r = build(&T::Int(9))).is_some())?;
        ctx.same("get_mut", &u, &hit.is_some()).map_err(at)?;
        if let Some(p) = hit {
            m[p].1 = T::Int(9);
        }
        observe(ctx, &t, &m).map_err(at)?;
        ctx.sut("insert", || insert_typed(&mut t, q, &T::UInt(5)))?;
        map_insert(&mut m, q, T::UInt(5));
        observe(ctx, &t, &m).map_err(at)?;
        let r = ctx.sut("remove", || t.remove(q).map(|v| reify(v.as_ref()).unwrap()))?;
        ctx.same("remove", &r, &Some(T::UInt(5))).map_err(at)?;
        m.retain(|e| e.0 != *q);
        observe(ctx, &t, &m).map_err(at)
    }));
    let nl = tier.pick(48u64, 130);
    stages.push(stage("large-histories", nl * nl, format!("tuples of 1..={nl} entries: the entry at each position removed, another updated, overwritten, the first put back; then all removed front to back"), move |ctx, i| {
        let (n, p) = ((i / nl) as usize + 1, (i % nl) as usize);
        if p >= n {
            return Ok(());
        }
        let key = |j: usize| format!("key{}", (j * 31) % 997);
        let mut m: Vec<(String, T)> = (0..n).map(|j| (key(j), T::UInt(j as u128))).collect();
        let mut t = ctx.sut("new", || tuple_of(&m))?;
        let r = ctx.sut("remove", || t.remove(key(p)).map(|v| reify(v.as_ref()).unwrap()))?;
        ctx.same("remove", &r, &Some(T::UInt(p as u128)))?;
        m.remove(p);
        observe(ctx, &t, &m)?;
        let q = (p + n / 2 + 1) % n;
        if q != p {
            ctx.sut("get_mut", || t.get_mut(key(q)).map(|r| *r = build(&T::None)))?;
            map_insert(&mut m, &key(q), T::None);
            let z = (q + n / 3) % n;
            if z != p {
                ctx.sut("insert", || insert_typed(&mut t, &key(z), &T::Int(-5)))?;
                map_insert(&mut m, &key(z), T::Int(-5));
            }
        }
        ctx.sut("insert", || insert_typed(&mut t, &key(p), &T::Int(-6)))?;
        map_insert(&mut m, &key(p), T::Int(-6));
        ctx.state(format!("{m:?}").as_bytes());
        observe(ctx, &t, &m)?;
        while !m.is_empty() {
            let (k, v) = m.remove(0);
            let r = ctx.sut("remove", || t.remove(&k).map(|v| reify(v.as_ref()).unwrap()))?;
            ctx.same("remove", &r, &Some(v))?;
            let left = ctx.sut("keys", || t.keys().cloned().collect::<Vec<_>>())?;
            ctx.same("keys", &left, &m.iter().map(|e| e.0.clone()).collect())?;
        }
        Ok(())
    }));
    let nmax = tier.pick(200u64, 600);
    stages.push(stage("growth", nmax, format!("tuples grown to 1..={nmax} entries by insertion, each key overwritten once, every key looked up"), |ctx, i| {
        let n = i as usize + 1;
        let mut t = ctx.sut("new", || Tuple::new(vec![]))?;
        let mut m = vec![];
        for r in 0..2 {
            for j in 0..n {
                let k = format!("k{}", (j * 7) % n);
                let v = T::UInt((r * 1000 + j) as u128);
                ctx.sut("insert", || insert_typed(&mut t, &k, &v))?;
                map_insert(&mut m, &k, v);
            }
        }
        for (k, v) in &m {
            let g = ctx.sut("get", || t.get(k).map(|v| reify(v.as_ref()).unwrap()))?;
            ctx.same("get", &g.as_ref(), &Some(v))?;
        }
        observe(ctx, &t, &m)
    }));
    Check {
        id: "C05",
        rule: "one case = one operation history on a Tuple run in lockstep with an ordered-map model; every result and the full observable state compared",
        assumptions: assume(&["tuples created with a repeated key are outside the property", "three colliding keys expose what more keys would, beyond the five-key and growth sweeps"]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C06

fn plain(t: &T) -> bool {
    match t {
        T::Ascii(s) => s.bytes().all(|b| (0x20..0x7f).contains(&b) && b != b'"' && b != b'\\'),
        T::Utf8(s) => s.chars().all(|c| !c.is_control() && c != '"' && c != '\\'),
        T::Ok(v) | T::Err(v) | T::Some(v) => plain(v),
        T::List(v) => v.iter().all(plain),
        T::Tup(v) => v.iter().all(|(_, x)| plain(x)),
        _ => true,
    }
}

fn c06_term(ctx: &mut Ctx, t: &T) -> Result<(), String> {
    if !plain(t) {
        return Ok(());
    }
    let want = text(t);
    ctx.state(want.as_bytes());
    ctx.sample(|| short(&want));
    let v = ctx.sut("new", || build(t))?;
    let got = ctx.sut("to_string", || v.to_string())?;
    ctx.same("to_string", &got, &want)?;
    let got = ctx.sut("format", || format!("<{v}>"))?;
    ctx.same("format", &got, &format!("<{want}>"))
}

fn c06(tier: Tier) -> Check {
    Check {
        id: "C06",
        rule: "one case = one term; Display text compared with a reference printer",
        assumptions: assume(&["strings containing quotes, backslashes or control characters are outside the property"]),
        stages: term_stages(tier, c06_term, |_| true),
        isolated: vec![],
    }
}
