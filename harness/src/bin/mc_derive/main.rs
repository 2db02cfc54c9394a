//! C18: derived conversions of tuples into structs.

mod shapes;

use harness::engine::*;
use harness::term::*;
use shapes::*;
use stacks_rs::clarity::{Cast, Codec, Tuple};
use stacks_rs::derive::FromTuple;

/// What a field's declared type stands for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    I,
    U,
    B,
    S,
    Buf,
    VS,
    OI,
    OU,
    OS,
    RI,
    RU,
    N1,
    N2,
    N3,
    G1,
    /// the same types written as paths, or with `response = false`
    QBuf,
    QVS,
    QOI,
    QOU,
    QOS,
    RF,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    I(i128),
    U(u128),
    B(bool),
    S(String),
    Buf(Vec<u8>),
    VS(Vec<String>),
    OI(Option<i128>),
    OU(Option<u128>),
    OS(Option<String>),
    N(Vec<Out>),
}

macro_rules! from {
    ($($v:ident $t:ty),*) => { $(impl From<$t> for Out { fn from(x: $t) -> Out { Out::$v(x) } })* };
}
from!(I i128, U u128, B bool, S String, Buf Vec<u8>, VS Vec<String>, OI Option<i128>, OU Option<u128>, OS Option<String>);
impl From<N1> for Out {
    fn from(n: N1) -> Out {
        Out::N(vec![n.v.into()])
    }
}
impl From<N2> for Out {
    fn from(n: N2) -> Out {
        Out::N(vec![n.x.into(), n.y.into()])
    }
}

impl From<N3> for Out {
    fn from(n: N3) -> Out {
        Out::N(vec![n.a.into(), n.b.into()])
    }
}
impl From<G1> for Out {
    fn from(n: G1) -> Out {
        Out::N(vec![n.g.into()])
    }
}

/// Keeps every text form of an error.
fn conv<S, E: std::fmt::Display + std::fmt::Debug>(r: Result<S, E>, f: impl FnOnce(S) -> Vec<Out>) -> Result<Vec<Out>, String> {
    match r {
        Ok(s) => Ok(f(s)),
        Err(e) => Err(format!("{e} {e:?}")),
    }
}

// ------------------------------------------------------------------ model

/// The field's value, or the keys an error may name.
fn field(k: K, v: &T) -> Result<Out, Vec<String>> {
    let no = Err(vec![]);
    let k = match k {
        K::QBuf => K::Buf,
        K::QVS => K::VS,
        K::QOI => K::OI,
        K::QOU => K::OU,
        K::QOS => K::OS,
        K::RF => K::I,
        k => k,
    };
    match (k, v) {
        (K::I, T::Int(x)) => Ok(Out::I(*x)),
        (K::U, T::UInt(x)) => Ok(Out::U(*x)),
        (K::B, T::True) => Ok(Out::B(true)),
        (K::B, T::False) => Ok(Out::B(false)),
        (K::S, v) => Ok(Out::S(text(v))),
        (K::Buf, T::Buf(b)) => Ok(Out::Buf(b.clone())),
        (K::VS, T::List(l)) => Ok(Out::VS(l.iter().map(text).collect())),
        (K::OI, T::None) => Ok(Out::OI(None)),
        (K::OI, T::Some(b)) => match **b {
            T::Int(x) => Ok(Out::OI(Some(x))),
            _ => no,
        },
        (K::OU, T::None) => Ok(Out::OU(None)),
        (K::OU, T::Some(b)) => match **b {
            T::UInt(x) => Ok(Out::OU(Some(x))),
            _ => no,
        },
        (K::OS, T::None) => Ok(Out::OS(None)),
        (K::OS, T::Some(b)) => Ok(Out::OS(Some(text(b)))),
        (K::RI, T::Ok(b)) => match **b {
            T::Int(x) => Ok(Out::I(x)),
            _ => no,
        },
        (K::RU, T::Ok(b)) => match **b {
            T::UInt(x) => Ok(Out::U(x)),
            _ => no,
        },
        (K::N1, T::Tup(e)) => whole(&[("n0", K::I)], e).map(Out::N),
        (K::N2, T::Tup(e)) => whole(&[("x", K::B), ("y", K::N1)], e).map(Out::N),
        (K::N3, T::Tup(e)) => whole(&[("n2", K::N2), ("n1", K::N1)], e).map(Out::N),
        (K::G1, T::Tup(e)) => whole(&[("g", K::OU)], e).map(Out::N),
        _ => no,
    }
}

fn whole(fields: &[(&str, K)], entries: &[(String, T)]) -> Result<Vec<Out>, Vec<String>> {
    let mut out = vec![];
    let mut bad = vec![];
    for (key, k) in fields {
        match entries.iter().find(|(n, _)| n == key) {
            None => bad.push(key.to_string()),
            Some((_, v)) => match field(*k, v) {
                Ok(o) => out.push(o),
                Err(inner) => {
                    bad.push(key.to_string());
                    bad.extend(inner);
                }
            },
        }
    }
    if bad.is_empty() {
        Ok(out)
    } else {
        Err(bad)
    }
}

// ------------------------------------------------------------------ space

fn b(t: T) -> Box<T> {
    Box::new(t)
}
fn tup(e: &[(&str, T)]) -> T {
    T::Tup(e.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
fn s(x: &str) -> T {
    T::Ascii(x.into())
}

fn values() -> Vec<T> {
    let n1 = tup(&[("n0", T::Int(5))]);
    vec![
        T::Int(0),
        T::Int(-1),
        T::Int(i128::MAX),
        T::Int(i128::MIN),
        T::UInt(0),
        T::UInt(1),
        T::UInt(u128::MAX),
        T::True,
        T::False,
        T::Buf(vec![]),
        T::Buf(vec![1, 2, 0xff]),
        s(""),
        s("hi"),
        T::Utf8("é".into()),
        T::Std(ADDR.into()),
        T::Con(ADDR_T.into(), "c-1".into()),
        T::None,
        T::Some(b(T::Int(i128::MIN))),
        T::Some(b(T::Int(0))),
        T::Some(b(T::UInt(u128::MAX))),
        T::Some(b(T::UInt(0))),
        T::Some(b(s("x"))),
        T::Some(b(T::None)),
        T::Some(b(T::Some(b(T::Int(1))))),
        T::Some(b(T::True)),
        T::List(vec![]),
        T::List(vec![T::Int(1), T::Int(2), T::Int(1)]),
        T::List(vec![T::Std(ADDR.into()), T::None]),
        T::Ok(b(T::Int(-3))),
        T::Ok(b(T::UInt(3))),
        T::Ok(b(T::True)),
        T::Ok(b(T::Ok(b(T::Int(1))))),
        T::Ok(b(T::Ok(b(T::UInt(1))))),
        T::Err(b(T::Int(3))),
        T::Err(b(T::UInt(3))),
        T::Ok(b(T::Some(b(T::Int(3))))),
        tup(&[]),
        n1.clone(),
        tup(&[("n0", T::UInt(5))]),
        tup(&[("n1", T::Int(5))]),
        tup(&[("m", T::True), ("n0", T::Int(6)), ("z", T::None)]),
        tup(&[("x", T::True), ("y", n1.clone())]),
        tup(&[("y", n1.clone()), ("x", T::False)]),
        tup(&[("x", T::Int(1)), ("y", n1.clone())]),
        tup(&[("x", T::True), ("y", tup(&[]))]),
        tup(&[("x", T::True), ("y", T::None)]),
        tup(&[("x", T::True)]),
        T::Some(b(n1.clone())),
        T::List(vec![n1.clone()]),
        tup(&[("n1", n1.clone()), ("n2", tup(&[("x", T::True), ("y", n1.clone())]))]),
        tup(&[("n1", n1.clone()), ("n2", tup(&[("x", T::True), ("y", tup(&[("n0", T::True)]))]))]),
        tup(&[("n2", n1.clone()), ("n1", tup(&[("x", T::True), ("y", n1)]))]),
        tup(&[("g", T::None)]),
        tup(&[("g", T::Some(b(T::UInt(9))))]),
        tup(&[("g", T::UInt(9))]),
        T::Buf((0..=255).collect()),
        s(&"long ".repeat(60)),
        T::List((0..300).map(T::Int).collect()),
    ]
}

/// A value the kind accepts.
fn good(k: K, i: usize) -> T {
    let all: Vec<T> = values().into_iter().filter(|v| field(k, v).is_ok()).collect();
    all[i % all.len()].clone()
}

// ------------------------------------------------------------------ check

/// Converts the tuple with these entries, constructed in one of three ways.
fn judge(c: &mut Ctx, sh: usize, entries: Vec<(String, T)>, how: u64) -> Result<(), String> {
    let (fields, f) = &SHAPES[sh];
    let t = T::Tup(entries.clone());
    let how = if enc(&t).is_none() { how % 2 } else { how };
    let tuple: Tuple = match how {
        0 => build(&t).cast::<Tuple>().map_err(|_| "building a tuple".to_string())?,
        1 => {
            let mut t = Tuple::new(vec![]);
            for (k, v) in &entries {
                t.insert(k.clone(), stacks_rs::clarity::True::new());
                if let Some(slot) = t.get_mut(k.as_str()) {
                    *slot = build(v);
                }
            }
            t
        }
        _ => {
            let bytes = enc(&t).ok_or("model: unencodable entry")?;
            Tuple::decode(&bytes).map_err(|e| format!("decoding a tuple: {e:?}"))?
        }
    };
    // a decoded tuple lists its entries in canonical order, which shows in its text
    let want = match (how, canon(&t)) {
        (0 | 1, _) => whole(fields, &entries),
        (_, T::Tup(e)) => whole(fields, &e),
        _ => return Err("model: canonical tuple".into()),
    };
    c.sample(|| format!("fields {fields:?} from {}: {}", show(&t), if want.is_ok() { "converts" } else { "error" }));
    c.state(format!("{sh} {t:?}").as_bytes());
    let got = c.sut("try_from", || f(tuple))?;
    match (got, want) {
        (Ok(g), Ok(w)) => c.same(&format!("struct {fields:?} from {}", show(&t)), &g, &w),
        (Err(e), Err(keys)) => c.holds(
            &format!("struct {fields:?} from {}: the error {e} names none of {keys:?}", show(&t)),
            keys.iter().any(|k| e.contains(&format!("'{k}'")) || e.contains(&format!("{k:?}"))),
        ),
        (Ok(g), Err(keys)) => {
            Err(format!("struct {fields:?} from {}: converted to {g:?} although {keys:?} is missing or mismatching", show(&t)))
        }
        (Err(e), Ok(w)) => Err(format!("struct {fields:?} from {}: error {e}, the model gives {w:?}", show(&t))),
    }
}

/// Entry for a value index; the index past the values means the key is absent.
fn entry(vals: &[T], key: &str, i: u64) -> Option<(String, T)> {
    vals.get(i as usize).map(|v| (key.to_string(), v.clone()))
}

fn extras() -> [Vec<(String, T)>; 3] {
    [
        vec![],
        vec![("zz".into(), T::Int(77))],
        vec![("f1".into(), T::UInt(78)), ("f0".into(), T::Int(79)), ("P".into(), T::True), ("key".into(), T::None)],
    ]
}

/// Keys that are easily taken for this one.
fn near_keys(k: &str) -> Vec<String> {
    let cut = |n: usize| k.chars().take(n).collect::<String>();
    let n = k.chars().count();
    vec![
        k.to_uppercase(),
        k.to_lowercase(),
        k.replace('-', "_"),
        k.replace('_', "-"),
        format!("{k}-"),
        format!("{k}1"),
        format!("{k} "),
        format!("-{k}"),
        format!("{k}{k}"),
        cut(n.saturating_sub(1)),
        cut(1),
        k.chars().skip(1).collect(),
        k.chars().rev().collect(),
        k.trim_matches(|c: char| !c.is_alphanumeric()).to_string(),
        k.chars().filter(|c| c.is_alphanumeric()).collect(),
        "f0".into(),
        "type_".into(),
        String::new(),
    ]
}

fn c18(tier: Tier) -> Check {
    let v = values().len() as u64;
    let opts = v + 1;
    let n_single = SINGLE as u64 * opts * 3 * 3;
    let pairs = (PAIR - SINGLE) as u64;
    let same = (SAME - PAIR) as u64;
    let triples = (TRIPLE - SAME) as u64;
    let all = (WHOLE - TRIPLE) as u64;
    let odds = (ODD - WHOLE) as u64;
    let manies = (SHAPES.len() - ODD) as u64;
    let wide_fields = SHAPES[ODD].0.len() as u64;
    let near = near_keys("k").len() as u64;
    let wide = SHAPES[TRIPLE].0.len() as u64;
    let ex = tier.pick(2, 3);
    let hows = tier.pick(1, 3);
    let crowd = tier.pick(140u64, 210);
    Check {
        id: "C18",
        rule: "for every enumerated struct and tuple the derived conversion gives the model's fields or an error naming a missing or mismatching key",
        assumptions: vec![
            "a String field stands for any value and takes its text form".into(),
            "enum and unit structs, unsupported field types and fields without a key are rejected at compile time and not judged".into(),
        ],
        stages: vec![
            stage("one-field", n_single, format!("{SINGLE} one-field structs x ({v} values or absent) x 3 sets of extra keys x 3 constructions"), move |c, i| {
                let vals = values();
                let sh = (i % SINGLE as u64) as usize;
                let i = i / SINGLE as u64;
                let (x, i) = (i % opts, i / opts);
                let key = SHAPES[sh].0[0].0;
                let mut e: Vec<_> = entry(&vals, key, x).into_iter().collect();
                for (k, v) in extras()[(i % 3) as usize].clone() {
                    if k != key {
                        e.insert(0, (k, v));
                    }
                }
                judge(c, sh, e, i / 3)
            }),
            stage("two-fields", pairs * opts * opts * 2 * ex * hows, format!("{pairs} two-field structs (all ordered pairs of field types, keys crossed and not) x all pairs of ({v} values or absent) x both entry orders x {ex} sets of extra keys x {hows} constructions"), move |c, i| {
                let vals = values();
                let (p, i) = (i % pairs, i / pairs);
                let (x, i) = (i % opts, i / opts);
                let (y, i) = (i % opts, i / opts);
                let (rev, i) = (i % 2, i / 2);
                let (e_i, how) = (i % ex, i / ex);
                let sh = SINGLE + p as usize;
                let keys = SHAPES[sh].0;
                let mut e: Vec<_> = entry(&vals, keys[0].0, x).into_iter().chain(entry(&vals, keys[1].0, y)).collect();
                if rev == 1 {
                    e.reverse();
                }
                e.extend(extras()[e_i as usize].clone());
                judge(c, sh, e, how)
            }),
            stage("shared-key", same * opts * 3, format!("{same} structs whose two fields read the same key x ({v} values or absent) x 3 constructions"), move |c, i| {
                let vals = values();
                let sh = PAIR + (i % same) as usize;
                let i = i / same;
                let e = entry(&vals, SHAPES[sh].0[0].0, i % opts).into_iter().collect();
                judge(c, sh, e, i / opts)
            }),
            stage("same-type-triples", triples * 7u64.pow(3) * 6, "13 structs of three equally typed fields with prefix-related keys x (5 accepted values, a wrong one or absent)^3 x all entry orders", move |c, i| {
                let sh = SAME + (i % triples) as usize;
                let mut i = i / triples;
                let fields = SHAPES[sh].0;
                let mut e = vec![];
                for (key, k) in fields {
                    let x = i % 7;
                    i /= 7;
                    match x {
                        6 => {}
                        5 => e.push((key.to_string(), if field(*k, &T::Err(b(T::None))).is_ok() { T::Err(b(T::None)) } else { tup(&[("n2", T::None)]) })),
                        x => e.push((key.to_string(), good(*k, x as usize))),
                    }
                }
                let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][(i % 6) as usize];
                let e2 = perm.iter().filter_map(|p| e.get(*p).cloned()).collect();
                judge(c, sh, e2, i % 3)
            }),
            stage("all-types", all * wide * opts * wide * opts * tier.pick(1, wide), format!("2 structs with all {wide} field types x all placements of any two values (or absences) over an otherwise accepted tuple, entry order rotated"), move |c, i| {
                let vals = values();
                let sh = TRIPLE + (i % all) as usize;
                let i = i / all;
                let (f1, i) = (i % wide, i / wide);
                let (v1, i) = (i % opts, i / opts);
                let (f2, i) = (i % wide, i / wide);
                let (v2, i) = (i % opts, i / opts);
                let mut e = vec![];
                for (j, (key, k)) in SHAPES[sh].0.iter().enumerate() {
                    let x = if j as u64 == f1 { Some(v1) } else if j as u64 == f2 { Some(v2) } else { None };
                    match x {
                        Some(x) => e.extend(entry(&vals, key, x)),
                        None => e.push((key.to_string(), good(*k, j))),
                    }
                }
                let r = ((i + f1 + f2) % wide) as usize % e.len();
                e.rotate_left(r);
                judge(c, sh, e, (v1 + v2) % 3)
            }),
            stage("odd-keys", odds * opts * 3 * 3, format!("{odds} one-field structs with odd keys, types written as paths, generic and deeper nested structs x ({v} values or absent) x 3 sets of extra keys x 3 constructions"), move |c, i| {
                let vals = values();
                let sh = WHOLE + (i % odds) as usize;
                let i = i / odds;
                let key = SHAPES[sh].0[0].0;
                let mut e: Vec<_> = entry(&vals, key, i % opts).into_iter().collect();
                let i = i / opts;
                for (k, v) in extras()[(i % 3) as usize].clone() {
                    if k != key {
                        e.insert(0, (k, v));
                    }
                }
                judge(c, sh, e, i / 3)
            }),
            stage("crowded", SINGLE as u64 * crowd * 3 * 3 * 3, format!("every one-field struct x 0..{crowd} further entries x its entry first, in the middle or last, of every kind (an accepted value, a mismatching one, absent), x 3 constructions"), move |c, i| {
                let sh = (i % SINGLE as u64) as usize;
                let i = i / SINGLE as u64;
                let (n, i) = ((i % crowd) as usize, i / crowd);
                let (place, kind, how) = (i % 3, i / 3 % 3, i / 9);
                let (key, _) = SHAPES[sh].0[0];
                let vals = values();
                let fits = |v: &&T| whole(SHAPES[sh].0, &[(key.to_string(), (*v).clone())]).is_ok();
                let mine = match kind {
                    0 => vals.iter().rev().find(fits),
                    1 => vals.iter().rev().find(|v| !fits(v)),
                    _ => None,
                };
                let mut e: Vec<(String, T)> = (0..n).map(|k| (format!("x{}", k * 37 % 211), vals[k % vals.len()].clone())).collect();
                if let Some(v) = mine {
                    e.insert([0, n / 2, n][place as usize], (key.to_string(), v.clone()));
                }
                judge(c, sh, e, how)
            }),
            stage("near-keys", (SINGLE as u64 + odds) * near * 4 * 3, format!("every one-field struct x {near} keys near its own (case, hyphen, prefix, suffix, field name) with or without the key itself, in both orders, x 3 constructions"), move |c, i| {
                let mut sh = (i % (SINGLE as u64 + odds)) as usize;
                if sh >= SINGLE {
                    sh = WHOLE + sh - SINGLE;
                }
                let i = i / (SINGLE as u64 + odds);
                let (key, k) = SHAPES[sh].0[0];
                let other = near_keys(key).swap_remove((i % near) as usize);
                let i = i / near;
                if other == key {
                    return Ok(());
                }
                let mut e = vec![(other, good(k, 1))];
                match i % 4 {
                    0 => {}
                    1 => e.push((key.to_string(), good(k, 0))),
                    2 => e.insert(0, (key.to_string(), good(k, 0))),
                    _ => e.push((key.to_string(), if field(k, &T::Err(b(T::None))).is_ok() { T::Err(b(T::None)) } else { tup(&[("n2", T::None)]) })),
                }
                judge(c, sh, e, i / 4)
            }),
            stage("many-fields", manies * wide_fields * wide_fields * 5 * 3, format!("{manies} structs of {wide_fields} equally typed fields, awkward identifiers: any two entries absent, mismatching or exchanged, entry order rotated"), move |c, i| {
                let sh = ODD + (i % manies) as usize;
                let i = i / manies;
                let (x, i) = ((i % wide_fields) as usize, i / wide_fields);
                let (y, i) = ((i % wide_fields) as usize, i / wide_fields);
                let (kind, how) = (i % 5, i / 5);
                let mut e: Vec<(String, T)> = SHAPES[sh].0.iter().enumerate().map(|(j, (key, k))| (key.to_string(), good(*k, j))).collect();
                let wrong = |k: K| if field(k, &T::Err(b(T::None))).is_ok() { T::Err(b(T::None)) } else { tup(&[("n2", T::None)]) };
                let k = SHAPES[sh].0[0].1;
                match kind {
                    0 => {}
                    1 => {
                        let v = e[x].1.clone();
                        e[x].1 = std::mem::replace(&mut e[y].1, v);
                    }
                    2 => {
                        e[x].1 = wrong(k);
                        e[y].1 = wrong(k);
                    }
                    3 => {
                        let kx = e[x].0.clone();
                        let ky = e[y].0.clone();
                        e.retain(|(n, _)| *n != kx && *n != ky);
                    }
                    _ => {
                        e[x].1 = wrong(k);
                        let ky = e[y].0.clone();
                        e.retain(|(n, _)| *n != ky);
                    }
                }
                let r = (x + y) % e.len();
                e.rotate_left(r);
                judge(c, sh, e, how)
            }),
        ],
        isolated: vec![],
    }
}

fn main() {
    std::process::exit(run_main(vec![("C18", c18)]));
}
