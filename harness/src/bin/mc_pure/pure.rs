//! C21: every operation is a pure function of its arguments.

use crate::tx::{pays, pc_sets};
use harness::engine::*;
use harness::refs::*;
use harness::sched;
use harness::term::*;
use harness::txm::*;
use stacks_rs::clarity::*;
use stacks_rs::crypto::c32::{hash_p2pkh, hash_p2sh, hash_p2wpkh, hash_p2wsh, Address, Version};
use stacks_rs::crypto::*;
use stacks_rs::transaction::*;
use stacks_rs::wallet::StacksWallet;
use std::str::FromStr;

pub fn registry() -> Registry {
    vec![("C21", c21)]
}

// ------------------------------------------------------------------ operations

struct Op {
    name: String,
    run: Box<dyn Fn() -> String + Send + Sync>,
}

fn ok<T: std::fmt::Debug, E>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(_) => "error".into(),
    }
}
fn bytes<E>(r: Result<Vec<u8>, E>) -> String {
    ok(r.map(|b| hexs(&b)))
}

const WORDS: [&str; 3] = [
    "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
    "legal winner thank year wave sausage worth useful legal winner thank yellow",
    "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon",
];

fn terms() -> Vec<T> {
    let b = |t: T| Box::new(t);
    let e = |k: &str, t: T| (k.to_string(), t);
    vec![
        T::Int(0),
        T::Int(-1),
        T::Int(i128::MAX),
        T::UInt(0),
        T::UInt(u128::MAX),
        T::True,
        T::False,
        T::None,
        T::Buf(vec![]),
        T::Buf(vec![1, 2, 3]),
        T::Buf(vec![3, 2, 1]),
        T::Ascii("".into()),
        T::Ascii("abc".into()),
        T::Ascii("abd".into()),
        T::Utf8("abc".into()),
        T::Utf8("é".into()),
        T::Std(ADDR.into()),
        T::Std(ADDR_T.into()),
        T::Con(ADDR.into(), "c".into()),
        T::Con(ADDR.into(), "d".into()),
        T::Some(b(T::Int(1))),
        T::Ok(b(T::Int(1))),
        T::Err(b(T::Int(1))),
        T::List(vec![]),
        T::List(vec![T::Int(1), T::Int(2)]),
        T::List(vec![T::Int(2), T::Int(1)]),
        T::Tup(vec![e("a", T::Int(1)), e("b", T::Int(2))]),
        T::Tup(vec![e("b", T::Int(2)), e("a", T::Int(1))]),
        T::Tup(vec![e("a", T::Int(2)), e("b", T::Int(1))]),
        T::Tup(vec![e("t", T::Tup(vec![e("l", T::List(vec![T::Some(b(T::Buf(vec![7; 40])))]))]))]),
        // not encodable
        T::Ascii("é".into()),
        T::Std("nonsense".into()),
        T::Tup(vec![e(&"k".repeat(200), T::Int(1))]),
    ]
}

fn conds(k: usize) -> Box<dyn SpendingCondition> {
    let ks = keys(4);
    let pk: Vec<_> = ks.iter().map(|k| k.1).collect();
    match k {
        0 => Box::new(SpendingConditionStandard::new(pk[0], 3, 4, mode(Hm::P2pkh))),
        1 => Box::new(SpendingConditionStandard::new(pk[1], 3, 4, mode(Hm::P2pkh))),
        2 => Box::new(SpendingConditionStandard::new(pk[0], 4, 3, mode(Hm::P2wpkh))),
        3 => Box::new(SpendingConditionMultiSig::new(&pk[..3], 5, 6, 2, mode(Hm::P2sh))),
        4 => Box::new(SpendingConditionMultiSig::new(&pk[1..], 5, 6, 1, mode(Hm::P2wsh))),
        _ => Box::new(SpendingConditionMultiSig::new(&pk[..2], 7, 8, 2, mode(Hm::P2sh))),
    }
}

fn plain_tx(net: usize, pay: usize, pcs: usize, origin: usize, sponsor: Option<usize>) -> Transaction {
    let n = NETS[net];
    let m = Tx {
        version: n.version(),
        chain: n.chain(),
        origin: empty_sponsor(),
        sponsor: None,
        anchor: 1 + net as u8,
        pcmode: 1 + (pcs % 2) as u8,
        pcs: pc_sets()[pcs].clone(),
        pay: pays()[pay].clone(),
    };
    build_tx(&m, conds(origin), sponsor.map(conds))
}

fn view(tx: &Transaction) -> String {
    format!("{} {}", bytes(tx.encode()), ok(tx.hash().map(|h| hexs(h.as_bytes()))))
}

fn signed(origin: usize, sponsor: Option<usize>, with: &[usize], append: &[usize], sp: &[usize]) -> String {
    let ks = keys(4);
    let mut s = match TransactionSigner::new(plain_tx(1, 0, 1, origin, sponsor)) {
        Ok(s) => s,
        Err(_) => return "error".into(),
    };
    let mut log = String::new();
    for k in with {
        log += if s.sign_origin(ks[*k].0).is_ok() { "s" } else { "-" };
    }
    for k in append {
        log += if s.append_origin(ks[*k].1).is_ok() { "a" } else { "-" };
    }
    for k in sp {
        log += if s.sign_sponsor(ks[*k].0).is_ok() { "p" } else { "-" };
    }
    let h = hexs(s.hash.as_bytes());
    let tx = s.transaction();
    let mut bare = tx.clone();
    bare.auth = bare.auth.reset();
    let v = bare.hash().map(|h| tx.auth.verify(h).is_ok());
    format!("{log} {h} {} {}", view(&tx), ok(v))
}

fn built(k: usize) -> String {
    let key = keys(4)[k % 2].0;
    macro_rules! b {
        () => {
            STXTokenTransfer::builder()
                .recipient(PrincipalStandard::new(if k % 4 < 2 { ADDR } else { ADDR_T }.to_string()))
                .amount(100 + k as u64)
                .sender(key)
        };
    }
    match k % 3 {
        0 => view(&b!().network(StacksMainnet::new()).build().transaction()),
        1 => view(&b!().network(StacksTestnet::new()).memo("note").fee(9u64).build().transaction()),
        _ => view(&b!().network(StacksMocknet::new()).nonce(7u64).post_conditions(build_pcs(&pc_sets()[2])).build().transaction()),
    }
}
fn called(k: usize) -> String {
    let key = keys(4)[k % 2].0;
    let b = STXContractCall::builder()
        .address(if k < 2 { ADDR } else { ADDR_T })
        .contract("contract")
        .fn_name("do-it")
        .fn_args(build_args(&[T::UInt(k as u128), T::None]))
        .sender(key)
        .network(StacksTestnet::new());
    match b.build().transaction() {
        Ok(t) => view(&t),
        Err(_) => "error".into(),
    }
}

fn wallet(words: &str, accounts: &[u32]) -> String {
    let Ok(mut w) = StacksWallet::from_secret_key(words) else { return "error".into() };
    let mut out = ok(w.private_key().map(|k| hexs(&k.secret_bytes())));
    for i in accounts {
        out += &ok(w.get_account(*i).map(|a| {
            (ok(a.private_key().map(|k| hexs(&k.secret_bytes()))), ok(a.public_key()), ok(a.get_address(Version::MainnetP2PKH)))
        }));
    }
    out
}

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, run: Box<dyn Fn() -> String + Send + Sync>| v.push(Op { name, run });
    for t in terms() {
        let n = show(&t);
        let t1 = t.clone();
        add(format!("encode {n}"), Box::new(move || {
            let x = build(&t1);
            format!("{} {} {}", bytes(x.encode()), ok(x.hex_prefixed()), ok(x.len()))
        }));
        let t1 = t.clone();
        add(format!("text {n}"), Box::new(move || build(&t1).to_string()));
        if let Some(b) = enc(&t) {
            add(format!("decode {n}"), Box::new(move || ok(decode_clarity_type(&b).map(|d| reify(&*d)))));
        }
    }
    for b in [vec![], vec![0x0b, 0, 0, 0, 2, 3], vec![0x0c, 0, 0, 0, 1, 1, b'a'], vec![0xff], vec![1; 10], vec![5; 22], vec![0x0a, 0x0a, 9], vec![2, 0, 0, 0, 3, 1, 2]] {
        add(format!("decode bytes {}", hexs(&b)), Box::new(move || ok(decode_clarity_type(&b).map(|d| reify(&*d)))));
    }
    // equal lengths, differing in one end or the other
    let raw: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0; 20], vec![0xff; 20], (0..20).collect(), (1..21).collect(), { let mut x: Vec<u8> = (0..20).collect(); x[19] = 0x80; x }, (0..33).collect()];
    for b in raw {
        let n = hexs(&b);
        let c = b.clone();
        add(format!("c32 {n}"), Box::new(move || format!("{} {}", ok(c32_encode(&c)), ok(c32check_encode(&c, 22)))));
        let c = b.clone();
        add(format!("b58 {n}"), Box::new(move || format!("{} {}", b58_encode(&c), base58check_encode(&c, 5))));
        let c = b.clone();
        add(format!("digests {n}"), Box::new(move || {
            format!(
                "{:?}",
                [
                    hexs(Sha256Hash::from_slice(&c).as_bytes()),
                    hexs(DSha256Hash::from_slice(&c).as_bytes()),
                    hexs(Sha512_256Hash::from_slice(&c).as_bytes()),
                    hexs(Hash160::from_slice(&c).as_bytes()),
                    hexs(SignatureHash::from_slice(&c).as_bytes()),
                    hexs(hash_p2pkh(&c).as_bytes()),
                    hexs(hash_p2wpkh(&c).as_bytes()),
                ]
            )
        }));
        let c = b.clone();
        add(format!("hex {n}"), Box::new(move || format!("{} {}", bytes_to_hex(&c), bytes(hex_to_bytes(&hexs(&c))))));
        if b.len() == 20 {
            for ver in VERSIONS {
                let c = b.clone();
                let a = address(&b, ver).unwrap();
                add(format!("address {n} {ver}"), Box::new(move || ok(c32_address(&c, ver))));
                add(format!("parse {a}"), Box::new(move || {
                    format!("{} {}", ok(c32_address_decode(&a).map(|x| (hexs(&x.0), x.1 as u8))), ok(Address::from_str(&a)))
                }));
            }
        }
    }
    for s in ["", "zz", "1111", "ADDR", ADDR, "SP2JXKMSH007NPYAQHKJPQMAQYAD90NQGTVJVQ02C", "1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa", "0x", "abc"] {
        add(format!("read {s:?}"), Box::new(move || {
            format!(
                "{} {} {} {} {} {}",
                bytes(b58_decode(s)),
                ok(base58check_decode(s)),
                bytes(c32_decode(s)),
                ok(c32check_decode(s)),
                ok(Address::from_str(s)),
                bytes(hex_to_bytes(s))
            )
        }));
    }
    for m in [1u8, 2, 3] {
        add(format!("multisig hashes {m}"), Box::new(move || {
            let ks: Vec<_> = keys(4).iter().map(|k| k.1).collect();
            format!("{} {} {}", hexs(hash_p2sh(m, &ks[..3]).as_bytes()), hexs(hash_p2wsh(m, &ks[..3]).as_bytes()), hexs(hash_p2sh(m, &ks[1..]).as_bytes()))
        }));
    }
    for (k, h) in [(0usize, 1u8), (0, 2), (1, 1)] {
        add(format!("sign hash {h} with key {k}"), Box::new(move || {
            let sh = || SignatureHash([h; 32]);
            let key = keys(4)[k].0;
            let s = SignatureHash::next_signature(sh(), 4, 1, 2, key);
            let back = s.as_ref().ok().map(|(sig, _)| ok(SignatureHash::next_verify(sh(), 4, 1, 2, *sig).map(|(p, h)| (p.to_string(), hexs(h.as_bytes())))));
            format!("{} {back:?}", ok(s.map(|(a, b)| (hexs(a.as_bytes()), hexs(b.as_bytes())))))
        }));
    }
    for pay in 0..pays().len() {
        add(format!("payload {pay}"), Box::new(move || build_pay(&pays()[pay]).map(|p| bytes(p.encode())).unwrap_or_default()));
    }
    for pcs in 0..pc_sets().len() {
        add(format!("post-conditions {pcs}"), Box::new(move || bytes(build_pcs(&pc_sets()[pcs]).encode())));
    }
    for (net, pay, pcs, o, s) in [(0, 0, 0, 0, None), (1, 1, 1, 3, None), (2, 2, 2, 4, None), (0, 3, 3, 1, Some(2)), (1, 0, 0, 2, Some(3)), (0, 0, 0, 1, None)] {
        add(format!("transaction {net} {pay} {pcs} {o} {s:?}"), Box::new(move || view(&plain_tx(net, pay, pcs, o, s))));
    }
    add("sign standard".into(), Box::new(|| signed(0, None, &[0], &[], &[])));
    add("sign standard, other key".into(), Box::new(|| signed(1, None, &[1], &[], &[])));
    add("sign standard, wrong key".into(), Box::new(|| signed(0, None, &[1], &[], &[])));
    add("sign witness".into(), Box::new(|| signed(2, None, &[0], &[], &[])));
    add("sign 2 of 3".into(), Box::new(|| signed(3, None, &[0, 1], &[2], &[])));
    add("sign 2 of 3, other order".into(), Box::new(|| signed(3, None, &[1, 0], &[2], &[])));
    add("sign 2 of 3 partly".into(), Box::new(|| signed(3, None, &[0], &[], &[])));
    add("sign 1 of 3".into(), Box::new(|| signed(4, None, &[1], &[2, 3], &[])));
    add("oversign".into(), Box::new(|| signed(5, None, &[0, 1, 2], &[], &[])));
    add("sign sponsored".into(), Box::new(|| signed(0, Some(1), &[0], &[], &[1])));
    add("sign sponsored multisig".into(), Box::new(|| signed(3, Some(5), &[0, 1], &[2], &[0, 1])));
    for k in 0..4 {
        add(format!("transfer builder {k}"), Box::new(move || built(k)));
        add(format!("call builder {k}"), Box::new(move || called(k)));
    }
    for w in WORDS {
        add(format!("wallet {w}"), Box::new(move || wallet(w, &[0, 1])));
    }
    add("wallet accounts 1, 7, 1".into(), Box::new(|| wallet(WORDS[0], &[1, 7, 1])));
    // copies, readings, argument lists
    for (k, ts) in terms().chunks(11).enumerate() {
        let ts = ts.to_vec();
        add(format!("copies {k}"), Box::new(move || {
            let one = |t: &T| {
                let x = build(t);
                let y = x.clone();
                format!("{:?} {} {} {}", y, ok(y.hex()), bytes(x.encode()) == bytes(y.encode()), x.to_string() == y.to_string())
            };
            ts.iter().map(one).collect::<Vec<_>>().join("; ")
        }));
    }
    for k in 0..4usize {
        let ts: Vec<T> = terms().into_iter().take(30).skip(k).step_by(4 * k + 1).take(9 - k).collect();
        add(format!("arguments {k}"), Box::new(move || {
            let x = build_args(&ts);
            let y = x.clone();
            let z = y.clone();
            let back = y.encode().and_then(|b| FnArguments::decode(&b)).map(|a| a.to_string());
            let each: Vec<String> = z.into_iter().map(|v| bytes(v.encode())).collect();
            format!("{} {y} {x:?} {} {each:?}", bytes(y.encode()), ok(back))
        }));
    }
    for k in 0..pc_sets().len() {
        add(format!("copied post-conditions {k}"), Box::new(move || {
            let x = build_pcs(&pc_sets()[k]);
            let y = x.clone();
            let each: Vec<String> = y.clone().into_iter().map(|v| bytes(v.encode())).collect();
            format!("{} {x:?} {each:?}", bytes(y.encode()))
        }));
    }
    for (net, pay, pcs, o, s) in [(0, 3, 3, 1, Some(2)), (1, 1, 1, 3, None)] {
        add(format!("transaction copied {net} {pay} {pcs} {o} {s:?}"), Box::new(move || {
            let x = plain_tx(net, pay, pcs, o, s);
            let mut y = x.clone();
            y.set_fee(1000);
            let z = y.clone();
            format!("{} {} {}", view(&x), view(&z), view(&y))
        }));
    }
    add("tuple in use".into(), Box::new(|| {
        let mut t = Tuple::new(Default::default());
        for k in ["d", "a", "c", "b"] {
            t.insert(k.into(), UInt::new(k.as_bytes()[0].into()));
        }
        let gone = t.remove("c").map(|v| v.to_string());
        t.insert("a".into(), True::new());
        let got: Vec<Option<String>> = ["a", "b", "c", "d"].iter().map(|k| t.get(k).map(|v| v.to_string())).collect();
        format!("{t} {gone:?} {got:?} {:?} {}", t.keys().collect::<Vec<_>>(), bytes(t.clone().encode()))
    }));
    for n in 0..3 {
        add(format!("network {n}"), Box::new(move || match n {
            0 => format!("{} {:?} {:?}", StacksMainnet::new().base_url(), StacksMainnet::new().version(), StacksMainnet::new().chain_id()),
            1 => format!("{} {:?} {:?}", StacksTestnet::new().base_url(), StacksTestnet::new().version(), StacksTestnet::new().chain_id()),
            _ => format!("{} {:?} {:?}", StacksMocknet::new().base_url(), StacksMocknet::new().version(), StacksMocknet::new().chain_id()),
        }));
    }
    v
}

// ------------------------------------------------------------------ families

/// Kinds of operations whose arguments are made from a byte string.
const KINDS: usize = 16;
const KIND_NAMES: [&str; KINDS] = [
    "c32 text", "c32 address", "address parsing", "b58 text", "digests", "hex", "buffer", "ASCII string", "integer", "principal",
    "tuple", "list", "decoding", "signature", "recovery", "transaction",
];

/// Base argument of a kind, and how many bytes of it may vary.
fn family_len(kind: usize) -> usize {
    match kind {
        1 | 2 | 9 => 20,
        8 => 16,
        13 | 14 => 32,
        15 => 24,
        _ => 40,
    }
}

fn family(kind: usize, b: &[u8]) -> String {
    let ascii = |b: &[u8]| b.iter().map(|x| (b'a' + x % 26) as char).collect::<String>();
    let int = |b: &[u8]| i128::from_be_bytes(b.try_into().unwrap_or([0; 16]));
    match kind {
        0 => format!("{} {}", ok(c32_encode(b)), ok(c32check_encode(b, 22))),
        1 => VERSIONS.map(|v| ok(c32_address(b, v))).join(" "),
        2 => {
            let a = address(b, VERSIONS[b[0] as usize % 4]).unwrap_or_default();
            format!("{} {} {}", ok(c32_address_decode(&a).map(|x| (hexs(&x.0), x.1 as u8))), ok(Address::from_str(&a)), bytes(c32_decode(&a)))
        }
        3 => {
            let t = b58_encode(b);
            format!("{t} {} {} {}", bytes(b58_decode(&t)), base58check_encode(b, 3), ok(base58check_decode(&base58check_encode(b, 3))))
        }
        4 => format!(
            "{:?}",
            [
                hexs(Sha256Hash::from_slice(b).as_bytes()),
                hexs(DSha256Hash::from_slice(b).as_bytes()),
                hexs(Sha512_256Hash::from_slice(b).as_bytes()),
                hexs(Hash160::from_slice(b).as_bytes()),
                hexs(hash_p2pkh(b).as_bytes()),
                hexs(hash_p2wpkh(b).as_bytes()),
            ]
        ),
        5 => format!("{} {}", bytes_to_hex(b), bytes(hex_to_bytes(&hexs(b)))),
        6 => value(T::Buf(b.to_vec())),
        7 => format!("{} {}", value(T::Ascii(ascii(b))), value(T::Utf8(ascii(b)))),
        8 => format!("{} {}", value(T::Int(int(b))), value(T::UInt(int(b) as u128))),
        9 => {
            let a = address(b, VERSIONS[b[1] as usize % 4]).unwrap_or_default();
            format!("{} {}", value(T::Std(a.clone())), value(T::Con(a, "c".into())))
        }
        10 => value(T::Tup(vec![(ascii(&b[..20]), T::Buf(b[20..].to_vec())), ("zz".into(), T::Int(b[0].into()))])),
        11 => value(T::List(b.iter().map(|x| T::UInt((*x).into())).collect())),
        12 => {
            let mut e = vec![0x0b, 0, 0, 0, 2, 2, 0, 0, 0, 40];
            e.extend(b);
            e.extend([0x0a, 3]);
            ok(decode_clarity_type(&e).map(|d| reify(&*d)))
        }
        13 => {
            let h = SignatureHash(b.try_into().unwrap_or([0; 32]));
            ok(SignatureHash::next_signature(h, 4, 1, 2, keys(1)[0].0).map(|(a, b)| (hexs(a.as_bytes()), hexs(b.as_bytes()))))
        }
        14 => {
            // always the same signature, for other hashes
            let sig = MessageSignature::new(sign65(&[7; 32], &keys(1)[0].0));
            ok(SignatureHash::next_verify(SignatureHash(b.try_into().unwrap_or([0; 32])), 4, 1, 2, sig).map(|(p, h)| (p.to_string(), hexs(h.as_bytes()))))
        }
        _ => {
            let n = |r: std::ops::Range<usize>| u64::from_be_bytes(b[r].try_into().unwrap_or([0; 8]));
            let mut tx = plain_tx(1, 0, 0, 0, None);
            tx.set_fee(n(0..8));
            tx.set_nonce(n(8..16));
            let pay = build_pay(&Pay::Transfer(T::Std(ADDR.into()), n(16..24), "memo".into())).map(|p| bytes(p.encode())).unwrap_or_default();
            let key = keys(1)[0].0;
            format!("{pay} {} {}", view(&tx), tx.sign(key).map(|t| view(&t)).unwrap_or("error".into()))
        }
    }
}

fn value(t: T) -> String {
    let x = build(&t);
    let e = x.encode();
    let back = e.as_ref().ok().map(|b| ok(decode_clarity_type(b).map(|d| (reify(&*d), d.to_string()))));
    format!("{} {} {back:?}", bytes(e), x)
}

/// The k-th member of a family: the base argument with one byte changed to one of a few values.
const CHANGES: [u8; 6] = [1, 2, 0x10, 0x7f, 0x80, 0xff];
fn members(kind: usize) -> usize {
    1 + family_len(kind) * CHANGES.len()
}
fn member(kind: usize, k: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..family_len(kind) as u8).map(|x| x.wrapping_mul(37).wrapping_add(11)).collect();
    if k > 0 {
        let (at, how) = ((k - 1) / CHANGES.len(), (k - 1) % CHANGES.len());
        b[at] ^= CHANGES[how];
    }
    b
}

fn all_members() -> usize {
    (0..KINDS).map(members).sum()
}
/// Kind and member with this number.
fn nth_member(mut i: usize) -> Option<(usize, usize)> {
    for k in 0..KINDS {
        if i < members(k) {
            return Some((k, i));
        }
        i -= members(k);
    }
    None
}
/// Number of the first member of a kind.
fn first_member(kind: usize) -> usize {
    (0..kind).map(members).sum()
}

/// Runs a member; `base` holds what every member gave alone.
fn go_member(c: &mut Ctx, base: &[String], kind: usize, m: usize, past: &dyn Fn() -> String) -> Result<(), String> {
    let b = member(kind, m);
    let got = c.sut(KIND_NAMES[kind], || family(kind, &b)).map_err(|e| format!("{} of {}: {e} (after {})", KIND_NAMES[kind], hexs(&b), past()))?;
    c.compared += 1;
    let want = &base[first_member(kind) + m];
    if want.strip_prefix('=') == Some(got.as_str()) {
        return Ok(());
    }
    Err(format!("{} of {} gave {}, alone in a process {} (after {})", KIND_NAMES[kind], hexs(&b), short(&got), short(want), past()))
}

// ------------------------------------------------------------------ alone

const SEP: char = '\u{1}';

/// Every operation's result when it is all a process does, in two environments, and the points at
/// which it can be stopped then.
fn alone(n: usize, points: usize) -> Result<(Vec<String>, Vec<Vec<usize>>), String> {
    let path = match std::env::var("C21_ALONE") {
        Ok(p) => p,
        Err(_) => {
            let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
            let p = format!("{dir}/evidence/.C21.alone");
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let next = std::sync::atomic::AtomicUsize::new(0);
            let got: Vec<std::sync::Mutex<Vec<String>>> = (0..n).map(|_| Default::default()).collect();
            std::thread::scope(|s| {
                for _ in 0..THREADS {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        for bare in [false, true] {
                            let mut c = std::process::Command::new(&exe);
                            c.args(["op", &i.to_string()]).stderr(std::process::Stdio::null()).env("C21_POINTS", points.to_string());
                            if bare {
                                c.env_clear().env("TZ", "Asia/Tokyo").env("LC_ALL", "tr_TR.UTF-8").current_dir("/");
                            }
                            let o = c.output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
                            got[i].lock().unwrap().push(o);
                        }
                    });
                }
            });
            let all: Vec<Vec<String>> = got.into_iter().map(|m| m.into_inner().unwrap()).collect();
            std::fs::create_dir_all(format!("{dir}/evidence")).ok();
            std::fs::write(&p, serde_json::to_string(&all).unwrap()).map_err(|e| e.to_string())?;
            std::env::set_var("C21_ALONE", &p);
            p
        }
    };
    let all: Vec<Vec<String>> =
        serde_json::from_str(&std::fs::read_to_string(path).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    Ok(all
        .iter()
        .map(|v| {
            let (r, p) = v[0].split_once(SEP).unwrap_or((&v[0], ""));
            let p = p.split(' ').filter_map(|x| x.parse().ok()).collect::<Vec<usize>>();
            if Some(r) != v[1].split(SEP).next() {
                return ("<differs between two processes>".to_string(), p);
            }
            (r.to_string(), p)
        })
        .unzip())
}

/// `mc op <i>`: one operation, alone.
pub fn op_main(i: usize) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    match std::panic::catch_unwind(|| sched::record(|| run_nth(i))) {
        Ok((s, trace)) => {
            let n = std::env::var("C21_POINTS").ok().and_then(|n| n.parse().ok()).unwrap_or(0);
            let p = if is_first(i) { spread(sched::points(&trace, 1), n) } else { vec![] };
            print!("={s}{SEP}{}", p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))
        }
        Err(_) => print!("panic"),
    }
    0
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn repetitions(name: &str, tier: Tier) -> usize {
    let signs = ["sign", "oversign", "transfer builder", "call builder", "multisig", "copies", "copied", "arguments", "transaction copied"];
    if name.starts_with("wallet") {
        tier.pick(40, 400) as usize
    } else if signs.iter().any(|s| name.starts_with(s)) {
        tier.pick(4200, 20_000) as usize
    } else {
        tier.pick(66_000, 300_000) as usize
    }
}

fn go(c: &mut Ctx, ops: &[Op], base: &[String], i: usize, past: &dyn Fn() -> String) -> Result<(), String> {
    let got = c.sut(&ops[i].name, || (ops[i].run)()).map_err(|e| format!("{e} (after {})", past()))?;
    c.compared += 1;
    if base[i].strip_prefix('=') == Some(got.as_str()) {
        return Ok(());
    }
    Err(format!("{} gave {}, alone in a process {} (after {})", ops[i].name, short(&got), short(&base[i]), past()))
}

// ------------------------------------------------------------------ schedules

/// An operation by number: first all operations, then all members of the kinds.
fn run_nth(i: usize) -> String {
    static OPS: std::sync::OnceLock<Vec<Op>> = std::sync::OnceLock::new();
    let ops = OPS.get_or_init(ops);
    if i < ops.len() {
        return (ops[i].run)();
    }
    nth_member(i - ops.len()).map(|(k, m)| family(k, &member(k, m))).unwrap_or_default()
}
fn nth_name(i: usize) -> String {
    let ops = ops();
    if i < ops.len() {
        return ops[i].name.clone();
    }
    nth_member(i - ops.len()).map(|(k, m)| format!("{} of {}", KIND_NAMES[k], hexs(&member(k, m)))).unwrap_or_default()
}

/// What each operation is interleaved with: itself, its neighbours of the same kind, and the first
/// operation of each kind; costly ones only with costly ones. And whether it is costly.
fn partners(near: usize) -> Vec<(usize, usize, bool)> {
    let words: Vec<String> = ops().iter().map(|o| o.name.split(' ').next().unwrap_or("").to_string()).collect();
    let n = words.len();
    let costly = |i: usize| ["sign", "oversign", "wallet", "transfer", "call", "multisig", "transaction"].contains(&words[i].as_str());
    let firsts: Vec<usize> = (0..n).filter(|i| !words[..*i].contains(&words[*i])).collect();
    let mut out = vec![];
    for a in 0..n {
        let mut v = vec![a];
        v.extend((0..a).rev().filter(|i| words[*i] == words[a]).take(near));
        v.extend((a + 1..n).filter(|i| words[*i] == words[a]).take(near));
        v.extend(firsts.iter().filter(|i| costly(**i) == costly(a) && words[**i] != "wallet"));
        let mut seen = std::collections::HashSet::new();
        v.retain(|i| seen.insert(*i));
        out.extend(v.into_iter().map(|b| (a, b, costly(a))));
    }
    out
}

/// Runs a up to its point `at`, b up to its point `bt`, then the rest of a, then the rest of b.
fn preempt(c: &mut Ctx, want: &dyn Fn(usize) -> String, a: usize, at: usize, b: usize, bt: usize) -> Result<(), String> {
    let (ra, rb) = c.sut("two interleaved operations", || sched::interleave(|| run_nth(a), at, Box::new(move || run_nth(b)), bt))?;
    c.compared += 2;
    for (x, r) in [(a, ra), (b, rb)] {
        let w = want(x);
        if r.is_none() || w.strip_prefix('=') != r.as_deref() {
            let how = if bt == usize::MAX { String::new() } else { format!(", itself stopped at its point {bt},") };
            return Err(format!(
                "{} gave {}, alone in a process {} (in the schedule where {} is stopped at its point {at} and {}{how} runs)",
                nth_name(x),
                r.map(|r| short(&r)).unwrap_or("a panic".into()),
                short(&w),
                nth_name(a),
                nth_name(b)
            ));
        }
    }
    Ok(())
}

/// Operations that are stopped as the first one of a process: every fifth, and the first of each kind.
fn is_first(i: usize) -> bool {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let n = *N.get_or_init(|| ops().len());
    if i < n { i % 5 == 0 } else { (0..KINDS).any(|k| i - n == first_member(k)) }
}

/// At most `n` of the points, evenly spread.
fn spread(v: Vec<usize>, n: usize) -> Vec<usize> {
    let l = v.len();
    if l <= n { v } else if n < 2 { vec![] } else { (0..n).map(|i| v[i * (l - 1) / (n - 1)]).collect() }
}

// ------------------------------------------------------------------ values and their clones

trait Subject {
    fn snapshot(&self) -> String;
    fn dup(&self) -> Box<dyn Subject>;
    fn muts(&self) -> usize;
    fn mutate(&mut self, k: usize);
    fn read(&self, k: usize);
}
const READS: usize = 8;

impl Subject for Tuple {
    fn snapshot(&self) -> String {
        format!("{} {} {:?}", bytes(self.encode()), self, self.keys().collect::<Vec<_>>())
    }
    fn dup(&self) -> Box<dyn Subject> {
        Box::new(self.clone())
    }
    fn muts(&self) -> usize {
        6
    }
    fn mutate(&mut self, k: usize) {
        match k {
            0 => self.insert("a".into(), UInt::new(99)),
            1 => self.insert("new".into(), UInt::new(98)),
            2 => drop(self.remove("b")),
            3 => drop(self.remove("absent")),
            4 => {
                if let Some(v) = self.get_mut("a") {
                    *v = Box::new(True::new());
                }
            }
            _ => {
                // deep inside
                let inner = self.get_mut("t").and_then(|v| v.cast_as::<Tuple>().ok().cloned());
                if let (Some(mut t), Some(v)) = (inner, self.get_mut("t")) {
                    t.insert("x".into(), False::new());
                    *v = Box::new(t);
                }
            }
        }
    }
    fn read(&self, k: usize) {
        match k {
            0 => drop(self.encode()),
            1 => drop(self.to_string()),
            2 => drop(format!("{self:?}")),
            3 => drop(self.get("a")),
            4 => drop(self.hex()),
            5 => drop(self == &self.clone()),
            6 => drop(self.values().count()),
            _ => drop(self.clone().into_iter().count()),
        }
    }
}

impl Subject for Transaction {
    fn snapshot(&self) -> String {
        let s = self.auth.sponsor().map(|s| (s.signatures(), s.fee(), s.nonce())).ok();
        format!("{} {:?} {:?}", view(self), (self.auth.origin().signatures(), self.auth.origin().fee(), self.auth.origin().nonce()), s)
    }
    fn dup(&self) -> Box<dyn Subject> {
        Box::new(self.clone())
    }
    fn muts(&self) -> usize {
        9
    }
    fn mutate(&mut self, k: usize) {
        let ks = keys(4);
        match k {
            0 => self.set_fee(77),
            1 => self.set_nonce(78),
            2 => drop(self.auth.origin_mut().modify(Modification::AddPublicKey(ks[3].1))),
            3 => drop(self.auth.origin_mut().modify(Modification::AddSignature(MessageSignature::new([1u8; 65])))),
            4 => drop(self.auth.set_sponsor(conds(1))),
            5 => drop(self.auth.sponsor_mut().map(|s| s.set_fee(79))),
            6 => self.auth.origin_mut().reset(),
            7 => self.auth.set_nonce(80),
            _ => drop(self.auth.sponsor_mut().map(|s| s.modify(Modification::AddSignature(MessageSignature::new([2u8; 65]))).is_ok())),
        }
    }
    fn read(&self, k: usize) {
        let h = SignatureHash([7; 32]);
        match k {
            0 => drop(self.encode()),
            1 => drop(self.hash()),
            2 => drop(format!("{self:?}")),
            3 => drop(self.auth.verify(h)),
            4 => drop(self.auth.verify_origin(h)),
            5 => drop(self.clone().sign(keys(1)[0].0)),
            6 => drop(TransactionSigner::new(self.clone()).map(|mut s| s.sign_origin(keys(1)[0].0))),
            _ => drop(TransactionSigner::new_sponser(self, conds(0)).map(|mut s| s.sign_sponsor(keys(1)[0].0))),
        }
    }
}

impl Subject for StacksWallet {
    fn snapshot(&self) -> String {
        let mut c = self.clone();
        let a: Vec<String> = (0..3).map(|i| ok(c.get_account(i).and_then(|a| a.get_address(Version::MainnetP2PKH)))).collect();
        format!("{} {a:?}", ok(self.public_key()))
    }
    fn dup(&self) -> Box<dyn Subject> {
        Box::new(self.clone())
    }
    fn muts(&self) -> usize {
        3
    }
    fn mutate(&mut self, k: usize) {
        match k {
            0 => drop(self.get_account(1)),
            1 => {
                if let Ok(a) = self.get_account(2) {
                    self.set_account(1, a);
                }
            }
            _ => {
                if let Ok(a) = self.get_account(9) {
                    self.set_account(0, a);
                }
            }
        }
    }
    fn read(&self, k: usize) {
        match k {
            0 => drop(self.private_key()),
            1 => drop(self.public_key()),
            _ => drop(self.clone()),
        }
    }
}

/// Any Clarity value: reading never changes it.
impl Subject for Dyn {
    fn snapshot(&self) -> String {
        format!("{} {}", bytes(self.encode()), self)
    }
    fn dup(&self) -> Box<dyn Subject> {
        Box::new(self.clone())
    }
    fn muts(&self) -> usize {
        1
    }
    fn mutate(&mut self, _: usize) {
        *self = Box::new(Int::new(12345));
    }
    fn read(&self, k: usize) {
        match k {
            0 => drop(self.encode()),
            1 => drop(self.to_string()),
            2 => drop(format!("{self:?}")),
            3 => drop(self.hex()),
            4 => drop(self.hex_prefixed()),
            5 => drop(self.len()),
            6 => drop(self.is_empty()),
            _ => drop(reify(&**self)),
        }
    }
}

fn subjects() -> Vec<Box<dyn Fn() -> Box<dyn Subject> + Send + Sync>> {
    let mut v: Vec<Box<dyn Fn() -> Box<dyn Subject> + Send + Sync>> = vec![];
    let e = |k: &str, t: T| (k.to_string(), t);
    let inner = T::Tup(vec![e("x", T::True), e("y", T::List(vec![T::Int(1)]))]);
    for t in [
        T::Tup(vec![]),
        T::Tup(vec![e("b", T::Int(2)), e("a", T::Int(1))]),
        T::Tup(vec![e("a", T::Int(1)), e("b", T::None), e("t", inner)]),
    ] {
        v.push(Box::new(move || match build(&t).cast::<Tuple>() {
            Ok(t) => Box::new(t) as Box<dyn Subject>,
            Err(_) => Box::new(build(&t)),
        }));
    }
    for (o, s) in [(0, None), (3, None), (0, Some(1)), (5, Some(3))] {
        v.push(Box::new(move || Box::new(plain_tx(0, 3, 2, o, s))));
    }
    v.push(Box::new(|| {
        let mut s = TransactionSigner::new(plain_tx(1, 0, 1, 3, None)).expect("signer");
        s.sign_origin(keys(1)[0].0).ok();
        Box::new(s.transaction())
    }));
    v.push(Box::new(|| Box::new(StacksWallet::from_secret_key(WORDS[0]).expect("wallet"))));
    v.push(Box::new(|| {
        let mut w = StacksWallet::from_secret_key(WORDS[1]).expect("wallet");
        w.get_account(1).ok();
        Box::new(w)
    }));
    for t in terms() {
        v.push(Box::new(move || Box::new(build(&t))));
    }
    v
}

const MUTS: u64 = 9;

fn clones(c: &mut Ctx, i: u64) -> Result<(), String> {
    let all = subjects();
    let (si, i) = ((i % all.len() as u64) as usize, i / all.len() as u64);
    let (m1, m2) = ((i % MUTS) as usize, (i / MUTS) as usize);
    let make = &all[si];
    let n = c.sut("create", || make().muts())?;
    if m1 >= n || m2 >= n {
        return Ok(());
    }
    c.state(format!("{si} {m1} {m2}").as_bytes());
    c.sample(|| format!("value {si}: mutation {m1} of the clone, then {m2} of the original"));
    let r = c.sut("mutations", || {
        let fresh = |k: usize| {
            let mut x = make();
            x.mutate(k);
            x.snapshot()
        };
        let mut o = make();
        let s0 = o.snapshot();
        let mut d = o.dup();
        let mut bad = vec![];
        if d.snapshot() != s0 {
            bad.push("a clone differs from its original");
        }
        d.mutate(m1);
        if o.snapshot() != s0 {
            bad.push("changing a clone changed the original");
        }
        let s1 = d.snapshot();
        if s1 != fresh(m1) {
            bad.push("a change acts differently on a clone");
        }
        o.mutate(m2);
        if d.snapshot() != s1 {
            bad.push("changing the original changed the clone");
        }
        if o.snapshot() != fresh(m2) {
            bad.push("a change acts differently on a value that was cloned");
        }
        bad
    })?;
    c.holds(&format!("value {si}, mutations {m1} and {m2}: {r:?}"), r.is_empty())
}

fn reads(c: &mut Ctx, i: u64) -> Result<(), String> {
    let all = subjects();
    let (si, i) = ((i % all.len() as u64) as usize, i / all.len() as u64);
    let seq = [(i % READS as u64) as usize, (i / READS as u64) as usize];
    let make = &all[si];
    let same = c.sut("reads", || {
        let o = make();
        let s0 = o.snapshot();
        for r in seq {
            o.read(r);
        }
        o.snapshot() == s0
    })?;
    c.holds(&format!("value {si}: reads {seq:?} changed it"), same)
}

// ------------------------------------------------------------------ check

fn c21(tier: Tier) -> Check {
    let n = ops().len();
    let fam = all_members();
    let cap1 = tier.pick(60, 400) as usize;
    let base = alone(n + fam, cap1);
    let (base, first_points) = match base {
        Ok(b) => b,
        Err(e) => {
            eprintln!("ENGINE ERROR: {e}");
            std::process::exit(2)
        }
    };
    let base: &'static [String] = Box::leak(base.into_boxed_slice());
    let all = base;
    let first_points: &'static [Vec<usize>] = Box::leak(first_points.into_boxed_slice());
    let want = move |i: usize| all[i].clone();
    // schedules: pairs of operations, pairs of calls of one kind
    let pairs = partners(tier.pick(2, 4) as usize);
    let cap_costly = tier.pick(250, 2000) as usize;
    let np = pairs.len() as u64;
    let mut near: Vec<(usize, usize)> = vec![];
    for k in 0..KINDS {
        let m = members(k);
        for a in [0, 7, m - 1] {
            for b in [0, 1, m / 2, m - 2] {
                near.push((n + first_member(k) + a, n + first_member(k) + b));
            }
        }
    }
    let nn = near.len() as u64;
    let visits = tier.pick(1, 3) as usize;
    let cap = tier.pick(90, 300) as usize;
    // first use: the first operation of a process is stopped
    let mut firsts: Vec<(usize, usize, usize)> = vec![];
    for a in (0..n + fam).filter(|a| is_first(*a)) {
        let b = if a < n { a } else { a + 1 };
        firsts.extend(first_points[a].iter().map(|at| (a, *at, b)));
    }
    let n1 = firsts.len() as u64;
    let (base, fbase) = base.split_at(n);
    let fu = fam as u64;
    let nu = n as u64;
    // triples: operations that exercise different parts
    let step = tier.pick(4, 1);
    let few: Vec<usize> = (0..n).step_by(step).collect();
    let nf = few.len() as u64;
    let ns = subjects().len() as u64;
    Check {
        id: "C21",
        rule: "in every enumerated history an operation returns what it returns as the only operation of a process",
        assumptions: vec![
            "two operations at a time: histories of whole operations on one thread and alternating between threads, and schedules with one or two preemptions at the edges of the library's own control flow (not inside its dependencies)".into(),
        ],
        stages: vec![
            stage("alone", nu, format!("{n} operations: the same result in two fresh processes with different environments, and when repeated three times"), move |c, i| {
                let ops = ops();
                let i = i as usize;
                c.state(ops[i].name.as_bytes());
                c.sample(|| format!("{} -> {}", ops[i].name, short(&base[i])));
                c.holds(&format!("{} has no single result: {}", ops[i].name, base[i]), base[i].starts_with('='))?;
                for k in 0..3 {
                    go(c, &ops, base, i, &|| format!("{k} repetitions"))?;
                }
                Ok(())
            })
            .fresh(),
            stage("pairs", nu, format!("all {n} x {n} ordered pairs: in a fresh process per first operation a, the history a b1 a b2 a b3 ... over all b"), move |c, a| {
                let ops = ops();
                let a = a as usize;
                for b in 0..ops.len() {
                    go(c, &ops, base, a, &|| format!("{} and others", ops[b.max(1) - 1].name))?;
                    go(c, &ops, base, b, &|| ops[a].name.clone())?;
                    c.state(format!("{a} {b}").as_bytes());
                }
                Ok(())
            })
            .fresh(),
            stage("pairs-across-threads", nu, "all ordered pairs again, every operation on a thread of its own after the previous ended", move |c, a| {
                let ops = ops();
                let a = a as usize;
                for b in 0..ops.len() {
                    for x in [a, b] {
                        let got = c.sut(&ops[x].name, || std::thread::scope(|s| s.spawn(|| (ops[x].run)()).join().unwrap_or_else(|_| "panic".into())))?;
                        c.holds(
                            &format!("{} on another thread gave {}, alone {} (pair {} , {})", ops[x].name, short(&got), short(&base[x]), ops[a].name, ops[b].name),
                            base[x].strip_prefix('=') == Some(got.as_str()),
                        )?;
                    }
                }
                Ok(())
            })
            .fresh(),
            stage("repeats", nu, format!("each of the {n} operations over and over in one process, then every other operation once: {} times, {} where a key signs or lists are copied, {} for whole wallets", tier.pick(66_000, 300_000), tier.pick(4200, 20_000), tier.pick(40, 400)), move |c, i| {
                let ops = ops();
                let i = i as usize;
                for k in 0..repetitions(&ops[i].name, tier) {
                    go(c, &ops, base, i, &|| format!("{k} repetitions"))?;
                }
                for j in 0..ops.len() {
                    go(c, &ops, base, j, &|| format!("{} over and over", ops[i].name))?;
                }
                Ok(())
            })
            .fresh(),
            stage("rounds", 24, format!("all operations in a fixed order, {} rounds in one process: 24 orders", tier.pick(12, 100)), move |c, i| {
                let ops = ops();
                // steps coprime to the number of operations, so that each round visits all of them
                let step = (1..).filter(|s| gcd(*s, ops.len()) == 1).nth(i as usize).unwrap();
                for k in 0..tier.pick(12, 100) as usize * ops.len() {
                    go(c, &ops, base, k * step % ops.len(), &|| format!("{k} operations in steps of {step}"))?;
                }
                Ok(())
            })
            .fresh(),
            stage("triples", nf * nf, format!("all ordered triples of {nf} operations: in a fresh process per first two"), move |c, i| {
                let ops = ops();
                let (a, b) = (few[(i % nf) as usize], few[(i / nf) as usize]);
                for x in &few {
                    for y in [a, b, *x] {
                        go(c, &ops, base, y, &|| format!("{}, {}", ops[a].name, ops[b].name))?;
                    }
                }
                Ok(())
            })
            .fresh(),
            stage("families", (KINDS * 4 + 4) as u64, format!("{fam} calls of {KINDS} kinds, those of a kind differing in one byte: each kind forwards and backwards, twice, with the base argument in between, and all kinds in turn"), move |c, i| {
                let i = i as usize;
                if i >= KINDS * 4 {
                    for round in 0..2 {
                        for m in 0..members(0) {
                            for k in 0..KINDS {
                                let k = if i % 2 == 0 { k } else { KINDS - 1 - k };
                                let m = if i / 2 % 2 == 0 { m } else { members(0) - 1 - m };
                                if m < members(k) {
                                    go_member(c, fbase, k, m, &|| format!("the others, round {round}"))?;
                                }
                            }
                        }
                    }
                    return Ok(());
                }
                let (kind, way) = (i / 4, i % 4);
                c.sample(|| format!("{}, way {way}", KIND_NAMES[kind]));
                let n = members(kind);
                for round in 0..2 {
                    for m in 0..n {
                        let m = if way % 2 == 0 { m } else { n - 1 - m };
                        go_member(c, fbase, kind, m, &|| format!("its family, round {round}"))?;
                        if way >= 2 {
                            go_member(c, fbase, kind, 0, &|| format!("its family, round {round}"))?;
                        }
                    }
                }
                Ok(())
            })
            .fresh(),
            stage("family-pairs", fu, format!("all ordered pairs of calls of one kind differing in one or two bytes: in a fresh process per first call ({fam})"), move |c, i| {
                let Some((kind, a)) = nth_member(i as usize) else { return Ok(()) };
                c.state(format!("{kind} {a}").as_bytes());
                c.holds(&format!("{} of {} has no single result: {}", KIND_NAMES[kind], hexs(&member(kind, a)), short(&fbase[i as usize])), fbase[i as usize].starts_with('='))?;
                for b in 0..members(kind) {
                    go_member(c, fbase, kind, a, &|| format!("{} others of its kind", b))?;
                    go_member(c, fbase, kind, b, &|| hexs(&member(kind, a)))?;
                }
                Ok(())
            })
            .fresh(),
            stage("preempted", np, format!("{np} ordered pairs of operations (a, b), b being a, its neighbours or of another kind: a stopped at the first {visits} and the last visit of every edge of the library's control flow (at {cap_costly} of these points where a signs or derives keys), b run, a resumed"), move |c, i| {
                let (a, b, costly) = pairs[i as usize];
                let (_, trace) = c.sut("an operation", || sched::record(|| run_nth(a)))?;
                let points = spread(sched::points(&trace, visits), if costly { cap_costly } else { usize::MAX });
                c.sample(|| format!("{} stopped in {} ways, {} run", nth_name(a), points.len(), nth_name(b)));
                for at in points {
                    c.state(format!("{a} {b} {at}").as_bytes());
                    preempt(c, &want, a, at, b, usize::MAX)?;
                }
                Ok(())
            })
            .fresh(),
            stage("preempted-near", nn, format!("{nn} ordered pairs of calls of one kind with near arguments, a stopped at the first {} and the last visit of every edge, b run, a resumed", visits + 1), move |c, i| {
                let (a, b) = near[i as usize];
                let (_, trace) = c.sut("an operation", || sched::record(|| run_nth(a)))?;
                for at in sched::points(&trace, visits + 1) {
                    c.state(format!("{a} {b} {at}").as_bytes());
                    preempt(c, &want, a, at, b, usize::MAX)?;
                }
                Ok(())
            })
            .fresh(),
            stage("preempted-twice", KINDS as u64 * 8, format!("two calls of one kind with near arguments: a stopped at each of up to {cap} points, b then stopped at each of up to {cap} points, a run to its end, b to its end"), move |c, i| {
                let (kind, part) = (i as usize / 8, i as usize % 8);
                let a = n + first_member(kind);
                let b = a + 1;
                let (_, ta) = c.sut("an operation", || sched::record(|| run_nth(a)))?;
                let (_, tb) = c.sut("an operation", || sched::record(|| run_nth(b)))?;
                let (pa, pb) = (spread(sched::points(&ta, 1), cap), spread(sched::points(&tb, 1), cap));
                for at in pa.iter().skip(part).step_by(8) {
                    for bt in &pb {
                        c.state(format!("{a} {b} {at} {bt}").as_bytes());
                        preempt(c, &want, a, *at, b, *bt)?;
                    }
                }
                Ok(())
            })
            .fresh(),
            stage("preempted-first-use", n1, format!("the first operation of a process, stopped at up to {cap1} points, another one of its kind run: a fresh process per point ({n1})"), move |c, i| {
                let (a, at, b) = firsts[i as usize];
                c.state(format!("{a} {b} {at}").as_bytes());
                preempt(c, &want, a, at, b, usize::MAX)
            })
            .fresh(),
            stage("clones", ns * MUTS * MUTS, format!("{ns} values (tuples, transactions, wallets, every value type) x all pairs of changes to clone and original"), clones),
            stage("reads", ns * (READS * READS) as u64, format!("{ns} values x all pairs of {READS} reading operations"), reads),
        ],
        isolated: vec![],
    }
}
