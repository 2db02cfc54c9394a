//! C11..C13: built transactions, payloads, post-conditions.

use harness::engine::*;
use harness::refs::*;
use harness::term::*;
use harness::txm::*;
use harness::typed;
use secp256k1::SecretKey;
use stacks_rs::clarity::*;
use stacks_rs::transaction::*;

pub fn registry() -> Registry {
    vec![("C11", c11), ("C12", c12), ("C13", c13)]
}

fn assume(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// u64 values: near 0, near every power of two, every single-byte pattern.
pub fn u64s() -> Vec<u64> {
    let mut v: Vec<u64> = (0..20).collect();
    for b in 0..64 {
        let p = 1u64 << b;
        v.extend([p.wrapping_sub(1), p, p + 1, !p]);
    }
    for b in 0..8 {
        v.extend([0xff << (8 * b), 0xa5 << (8 * b)]);
    }
    v.extend([u64::MAX, u64::MAX - 1, 1_000_000, 0x0102_0304_0506_0708]);
    v.sort_unstable();
    v.dedup();
    v
}
fn few_u64() -> Vec<u64> {
    vec![0, 1, 255, 256, 1_000_000, u32::MAX as u64, 1 << 32, 0x0102_0304_0506_0708, i64::MAX as u64, 1 << 63, u64::MAX]
}

fn asset(i: u64) -> Asset {
    match i % 4 {
        0 => Asset(ADDR.into(), "my-contract".into(), "my-asset".into()),
        1 => Asset(ADDR_T.into(), "c".into(), "a".into()),
        2 => Asset(ADDR.into(), "n".repeat(128), "t".repeat(128)),
        _ => Asset(ADDR_T.into(), "".into(), "é".into()),
    }
}

pub fn pc_sets() -> Vec<Vec<Pc>> {
    let s = T::Std(ADDR.into());
    let c = T::Con(ADDR_T.into(), "con".into());
    vec![
        vec![],
        vec![Pc::Stx(s.clone(), 7, 2)],
        vec![Pc::Ft(c.clone(), u64::MAX, 0, asset(0)), Pc::Nft(s.clone(), T::UInt(9), 6, asset(1))],
        vec![
            Pc::Nft(c.clone(), T::Tup(vec![("b".into(), T::Int(1)), ("a".into(), T::None)]), 5, asset(1)),
            Pc::Stx(c, 0, 4),
            Pc::Stx(s, 1, 3),
        ],
    ]
}

/// Conditions of every kind, short and long.
pub fn pc_menu() -> Vec<Pc> {
    let mut v = vec![];
    let long = "a-rather-long-contract-name-with-numbers-0123456789";
    for (k, p) in [T::Std(ADDR.into()), T::Con(ADDR_T.into(), "c".into()), T::Con(ADDR.into(), long.into()), T::Con(ADDR.into(), "x".repeat(128))].into_iter().enumerate() {
        v.push(Pc::Stx(p.clone(), 1 << (8 * k), k));
        v.push(Pc::Ft(p.clone(), 7, 4 - k, asset(k as u64 % 2)));
        v.push(Pc::Nft(p.clone(), T::UInt(k as u128), 5 + k % 2, asset(1)));
        v.push(Pc::Nft(p, T::Tup(vec![("id".into(), T::Buf(vec![k as u8; 100])), ("at".into(), T::List(vec![T::None; k]))]), 6 - k % 2, asset(0)));
    }
    v
}

/// A set of `n` conditions out of the menu.
pub fn pc_many(n: usize) -> Vec<Pc> {
    let menu = pc_menu();
    (0..n).map(|k| menu[(k * 5 + k / 16) % menu.len()].clone()).collect()
}

/// Everything the serialisation of a value says: bytes, length, hex forms.
pub fn codec_views<C: Codec + ?Sized>(ctx: &mut Ctx, c: &C, want: &Option<Vec<u8>>) -> Result<(), String> {
    let got = ctx.try_sut("encode", || c.encode())?;
    ctx.same("encode", &got.as_deref().map(hexs).ok(), &want.as_deref().map(hexs))?;
    let got = ctx.try_sut("len", || c.len())?;
    ctx.same("len", &got.ok(), &want.as_ref().map(Vec::len))?;
    let got = ctx.try_sut("hex", || c.hex())?;
    ctx.same("hex", &got.ok(), &want.as_deref().map(hexs))?;
    let got = ctx.try_sut("hex_prefixed", || c.hex_prefixed())?;
    ctx.same("hex_prefixed", &got.ok(), &want.as_deref().map(|b| format!("0x{}", hexs(b))))
}

pub fn tx_views(ctx: &mut Ctx, tx: &Transaction, m: &Tx) -> Result<(), String> {
    let want = m.enc();
    if let Some(w) = &want {
        ctx.state(w);
    }
    codec_views(ctx, tx, &want)?;
    let id = ctx.try_sut("hash", || tx.hash())?;
    ctx.same("id", &id.ok().map(|h| h.into_bytes().to_vec()), &want.as_deref().map(sha512_256))
}

// ------------------------------------------------------------------ C11

macro_rules! opts {
    ($b:expr, $mask:expr, $bit:expr, ) => { $b.build() };
    ($b:expr, $mask:expr, $bit:expr, $f:ident = $v:expr, $($rest:tt)*) => {{
        let b = $b;
        if $mask & $bit != 0 { opts!(b.$f($v), $mask, $bit * 2, $($rest)*) } else { opts!(b, $mask, $bit * 2, $($rest)*) }
    }};
}

#[derive(Clone)]
struct Want {
    net: Net,
    key: SecretKey,
    fee: u64,
    nonce: u64,
    anchor: usize,
    pcmode: usize,
    pcs: Vec<Pc>,
    pay: Pay,
}

impl Want {
    fn base(pay: Pay) -> Self {
        Want { net: Net::Main, key: keys(3)[2].0, fee: 0, nonce: 0, anchor: 2, pcmode: 0, pcs: vec![], pay }
    }
    /// The transaction when only the options in `mask` are set.
    fn model(&self, mask: u32) -> Tx {
        let on = |b: u32| mask & (1 << b) != 0;
        let pk = pkb(&self.key.public_key(&secp256k1::Secp256k1::new()));
        let mut pay = self.pay.clone();
        if let Pay::Transfer(_, _, memo) = &mut pay {
            if !on(5) {
                memo.clear();
            }
        }
        Tx {
            version: self.net.version(),
            chain: self.net.chain(),
            origin: Cond::single(Hm::P2pkh, &pk, if on(0) { self.fee } else { 0 }, if on(1) { self.nonce } else { 0 }),
            sponsor: None,
            anchor: if on(2) { ANCHORS[self.anchor].1 } else { 3 },
            pcmode: if on(3) { PCMODES[self.pcmode].1 } else { 1 },
            pcs: if on(4) { self.pcs.clone() } else { vec![] },
            pay,
        }
    }
    fn real(&self, mask: u32) -> Option<Transaction> {
        match self.net {
            Net::Main => self.real_on(mask, StacksMainnet::new()),
            Net::Test => self.real_on(mask, StacksTestnet::new()),
            Net::Mock => self.real_on(mask, StacksMocknet::new()),
        }
    }
    fn real_on<N: Network + Copy>(&self, mask: u32, net: N) -> Option<Transaction> {
        match &self.pay {
            Pay::Transfer(to, amount, memo) => Some(match to {
                T::Std(a) => self.transfer(mask, net, PrincipalStandard::new(a.clone()), *amount, memo),
                T::Con(a, n) => self.transfer(mask, net, PrincipalContract::new((a.clone(), n.clone())), *amount, memo),
                other => typed!(other, v => STXTokenTransfer::builder()
                    .recipient(v)
                    .amount(*amount)
                    .sender(self.key)
                    .network(net)
                    .memo(memo.clone())
                    .build()
                    .transaction()),
            }),
            Pay::Call(a, c, f, args) => {
                let b = STXContractCall::builder()
                    .address(a.as_str())
                    .contract(c.clone())
                    .fn_name(f.as_str())
                    .fn_args(build_args(args))
                    .sender(self.key)
                    .network(net);
                let b = opts!(
                    b, mask, 1u32,
                    fee = self.fee,
                    nonce = self.nonce,
                    anchor_mode = ANCHORS[self.anchor].0,
                    post_condition_mode = PCMODES[self.pcmode].0,
                    post_conditions = build_pcs(&self.pcs),
                );
                b.transaction().ok()
            }
        }
    }
    fn transfer<N: Network + Copy, R: Clarity>(&self, mask: u32, net: N, to: R, amount: u64, memo: &str) -> Transaction {
        let b = STXTokenTransfer::builder().recipient(to).amount(amount).sender(self.key).network(net);
        opts!(
            b, mask, 1u32,
            fee = self.fee,
            nonce = self.nonce,
            anchor_mode = ANCHORS[self.anchor].0,
            post_condition_mode = PCMODES[self.pcmode].0,
            post_conditions = build_pcs(&self.pcs),
            memo = memo,
        )
        .transaction()
    }
    fn check(&self, ctx: &mut Ctx, mask: u32) -> Result<(), String> {
        let m = self.model(mask);
        let tx = ctx.sut("build", || self.real(mask))?;
        let buildable = match &self.pay {
            Pay::Call(a, ..) => address_dec(a).is_some(),
            _ => true,
        };
        ctx.same("a transaction is built", &tx.is_some(), &buildable)?;
        let Some(tx) = tx else { return Ok(()) };
        tx_views(ctx, &tx, &m).map_err(|e| format!("{e} (network {:?}, fee {}, nonce {}, anchor {}, mode {}, {} post-conditions, options {mask:#b}, payload {})",
            self.net, self.fee, self.nonce, self.anchor, self.pcmode, self.pcs.len(), short(&self.pay)))
    }
}

pub fn pays() -> Vec<Pay> {
    vec![
        Pay::Transfer(T::Std(ADDR.into()), 1000, "memo".into()),
        Pay::Transfer(T::Con(ADDR_T.into(), "vault".into()), u64::MAX, "é".repeat(17)),
        Pay::Call(ADDR.into(), "contract".into(), "fn-name".into(), vec![]),
        Pay::Call(
            ADDR_T.into(),
            "c".into(),
            "f?".into(),
            vec![T::UInt(1), T::Tup(vec![("z".into(), T::True), ("y".into(), T::Ascii("q".into()))]), T::List(vec![T::Int(-1)])],
        ),
    ]
}

fn net_view<N: Network + PartialEq + std::fmt::Debug + Clone>(ctx: &mut Ctx, n: &N, want: Net) -> Result<(), String> {
    let (v, c, u) = ctx.sut("network", || (n.version() as u8, n.chain_id() as u32, n.base_url()))?;
    ctx.same("version", &v, &want.version())?;
    ctx.same("chain id", &c, &want.chain())?;
    ctx.same("base url", &u.as_str(), &want.url())
}

/// Lengths from `before` below to just above powers of two.
pub fn reaching(tier: Tier, before: usize) -> Vec<usize> {
    let ks: &[u32] = tier.pick(&[8, 12, 16][..], &[8, 10, 12, 14, 15, 16, 17][..]);
    ks.iter().flat_map(|k| (1usize << k) - before..=(1 << k) + 2).collect()
}

/// Near misses of an address: every single edit, and every odd character around it.
fn address_texts() -> Vec<String> {
    let e = Edits::new(ADDR, &"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZaopz. -é\n\t\u{a0}\0".chars().collect::<Vec<_>>());
    let mut v: Vec<String> = (0..e.count()).map(|i| e.nth(i)).collect();
    v.extend(odd_chars().into_iter().flat_map(|c| [format!("{c}{ADDR}"), format!("{ADDR}{c}"), format!("{c}{ADDR}{c}"), c.to_string()]));
    v.extend([ADDR.to_lowercase(), format!("S{}", ADDR[1..].to_lowercase()), format!("0x{ADDR}"), format!("{ADDR}.c"), format!("'{ADDR}"), format!("{ADDR}{ADDR}")]);
    v
}

fn c11(tier: Tier) -> Check {
    let few = few_u64();
    let nf = few.len() as u64;
    let all = u64s();
    let na = all.len() as u64;
    let (all2, few2, few3) = (all.clone(), few.clone(), few.clone());
    let ks = keys(64);
    let setter_len = tier.pick(3u32, 4);
    let wide = reaching(tier, 170);
    let (near, odd) = (address_texts(), odd_chars());
    let nodd = odd.len() as u64;
    let stages = vec![
        stage("networks", 3 * 4, "each network by new, default, clone and trait object", |ctx, i| {
            let how = i % 4;
            ctx.state(&[i as u8]);
            macro_rules! go {
                ($t:ident, $w:expr) => {{
                    let n = match how {
                        0 => $t::new(),
                        1 => $t::default(),
                        _ => $t::new().clone(),
                    };
                    net_view(ctx, &n, $w)?;
                    let b: Box<dyn Network> = Box::new(n);
                    let b2 = b.clone();
                    let (v, c, u) = ctx.sut("network", || (b2.version() as u8, b2.chain_id() as u32, b2.base_url()))?;
                    ctx.same("boxed network", &(v, c, u.as_str()), &($w.version(), $w.chain(), $w.url()))
                }};
            }
            match i / 4 {
                0 => go!(StacksMainnet, Net::Main),
                1 => go!(StacksTestnet, Net::Test),
                _ => go!(StacksMocknet, Net::Mock),
            }
        }),
        stage("options", 64 * 4 * 3 * 4, "every subset of the optional fields set x 4 payloads x 3 networks x 4 value choices", |ctx, i| {
            let mask = (i % 64) as u32;
            let p = pays()[(i / 64 % 4) as usize].clone();
            let v = i / 64 / 12;
            let mut w = Want::base(p);
            w.net = NETS[(i / 256 % 3) as usize];
            w.fee = [1, u64::MAX, 0x0102_0304_0506_0708, 0][v as usize];
            w.nonce = [2, 0x1112_1314_1516_1718, u64::MAX - 1, 5][v as usize];
            w.anchor = [0, 1, 2, 0][v as usize];
            w.pcmode = [1, 1, 0, 1][v as usize];
            w.pcs = pc_sets()[[1, 2, 3, 0][v as usize]].clone();
            ctx.sample(|| format!("options {mask:#b} {:?} {}", w.net, short(&w.pay)));
            w.check(ctx, mask)
        }),
        stage(
            "grid",
            3 * 3 * 2 * 4 * 4 * nf * nf,
            "every network x anchor mode x post-condition mode x 4 payloads x 4 condition sets x 11 fees x 11 nonces",
            move |ctx, mut i| {
                let mut d = |n: u64| {
                    let r = i % n;
                    i /= n;
                    r as usize
                };
                let mut w = Want::base(pays()[d(4)].clone());
                w.net = NETS[d(3)];
                w.anchor = d(3);
                w.pcmode = d(2);
                w.pcs = pc_sets()[d(4)].clone();
                w.fee = few2[d(nf)];
                w.nonce = few2[d(nf)];
                w.check(ctx, 63)
            },
        ),
        stage("fee-nonce", na * na, format!("{na} x {na} fees and nonces (near every power of two, every byte)"), move |ctx, i| {
            let mut w = Want::base(Pay::Transfer(T::Std(ADDR.into()), 1, "".into()));
            w.fee = all[(i % na) as usize];
            w.nonce = all[(i / na) as usize];
            w.check(ctx, 63)
        }),
        stage("amounts", na * 2, "amounts near every power of two", move |ctx, i| {
            let to = if i % 2 == 0 { T::Std(ADDR_T.into()) } else { T::Con(ADDR.into(), "x".into()) };
            Want::base(Pay::Transfer(to, all2[(i / 2) as usize], "m".into())).check(ctx, 63)
        }),
        stage("set-sizes", 300 * 2 * 2, "0..300 post-conditions of every kind x modes x payload kinds", |ctx, i| {
            let mut w = Want::base(pays()[(i % 2 * 2) as usize].clone());
            w.pcmode = (i / 2 % 2) as usize;
            w.pcs = pc_many((i / 4) as usize);
            w.check(ctx, 63)
        }),
        stage("argument-counts", 300, "contract calls with 0..300 arguments", |ctx, i| {
            let menu = every_type();
            let args = (0..i as usize).map(|k| menu[k * 4 % menu.len()].clone()).collect();
            Want::base(Pay::Call(ADDR.into(), "c".into(), "f".into(), args)).check(ctx, 63)
        }),
        stage("big-arguments", wide.len() as u64 * 4, "contract calls whose argument (buffer, string or list) brings the transaction to every length around 2^8, 2^12 and 2^16", move |ctx, i| {
            let arg = big_leaf(i % 4, wide[(i / 4) as usize]);
            Want::base(Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![T::Int(1), arg, T::True])).check(ctx, 63)
        }),
        stage("senders", 64 * 3 * 2, "64 sender keys (1, n-1, others) x networks x payload kinds", move |ctx, i| {
            let mut w = Want::base(pays()[(i % 2 * 2) as usize].clone());
            w.key = ks[(i / 6) as usize].0;
            w.net = NETS[(i / 2 % 3) as usize];
            w.check(ctx, 63)
        }),
        stage("recipients", 15 * 2, "recipient of every Clarity type: refused unless a principal", |ctx, i| {
            let t = every_type()[(i / 2) as usize].clone();
            Want::base(Pay::Transfer(t, 5, ["", "x"][(i % 2) as usize].into())).check(ctx, 63)
        }),
        stage("call-targets", 8 * 6 * 6 * 4, "contract addresses (valid and not) x names of 0..129+ bytes x arguments", |ctx, i| {
            let addrs = [
                ADDR.to_string(),
                ADDR_T.to_string(),
                address(&[0; 20], 20).unwrap(),
                address(&[0xff; 20], 21).unwrap(),
                "".into(),
                ADDR[..40].to_string(),
                ADDR.to_lowercase(),
                "SP000000000000000000002Q6VF78".into(),
            ];
            let names = ["".to_string(), "a".into(), "é".into(), "x".repeat(127), "x".repeat(128), "x".repeat(129)];
            let args = [vec![], vec![T::None], vec![T::Ascii("é".into())], vec![T::Int(1), T::Int(2), T::Int(3)]];
            Want::base(Pay::Call(
                addrs[(i % 8) as usize].clone(),
                names[(i / 8 % 6) as usize].clone(),
                names[(i / 48 % 6) as usize].clone(),
                args[(i / 288) as usize].clone(),
            ))
            .check(ctx, 31)
        }),
        stage("address-texts", near.len() as u64 * 3, "every single edit of an address (48-character alphabet), and every odd character around it, as call target and recipient", move |ctx, i| {
            let a = near[(i / 3) as usize].clone();
            Want::base(match i % 3 {
                0 => Pay::Call(a, "c".into(), "f".into(), vec![T::True]),
                1 => Pay::Transfer(T::Std(a), 1, "".into()),
                _ => Pay::Transfer(T::Con(a, "c".into()), 1, "".into()),
            })
            .check(ctx, 63)
        }),
        stage("text-characters", nodd * 6 * 4, format!("{nodd} characters alone, first, last, inside and doubled in contract name, function name, recipient name and memo"), move |ctx, i| {
            let s = placed(odd[(i / 24) as usize])[(i / 4 % 6) as usize].clone();
            Want::base(match i % 4 {
                0 => Pay::Call(ADDR.into(), s, "f".into(), vec![T::True]),
                1 => Pay::Call(ADDR.into(), "c".into(), s, vec![T::True]),
                2 => Pay::Transfer(T::Con(ADDR.into(), s), 1, "".into()),
                _ => Pay::Transfer(T::Std(ADDR.into()), 1, s),
            })
            .check(ctx, 63)
        }),
        stage(
            "setters",
            words(6, setter_len) * 5,
            format!("every sequence of <= {setter_len} set_fee/set_nonce calls on single-key, multi-key and sponsored transactions"),
            move |ctx, i| {
                const V: [u64; 3] = [0, u64::MAX, 0x0102_0304_0506_0708];
                let ops = nth_word(&[0u8, 1, 2, 3, 4, 5], i / 5);
                let (mut m, mut tx) = auth_variant(ctx, i % 5)?;
                tx_views(ctx, &tx, &m)?;
                for o in ops {
                    let before = m.enc().unwrap();
                    let v = V[(o % 3) as usize];
                    if o < 3 {
                        ctx.sut("set_fee", || tx.set_fee(v))?;
                        m.origin.fee = v;
                    } else {
                        ctx.sut("set_nonce", || tx.set_nonce(v))?;
                        m.origin.nonce = v;
                    }
                    let after = m.enc().unwrap();
                    let diff = before.iter().zip(&after).filter(|(a, b)| a != b).count();
                    assert!(diff <= 8 && before.len() == after.len());
                    tx_views(ctx, &tx, &m).map_err(|e| format!("after setting: {e}"))?;
                }
                Ok(())
            },
        ),
        stage(
            "sponsored-setters",
            4 * 5u64.pow(4) * 10 * 2,
            "sponsored transactions (single and several keys on either side), origin and sponsor each with fee and nonce out of 0, 1, 5, 7 and the largest: every one of 10 settings, through transaction and authorization",
            move |ctx, mut i| {
                const V: [u64; 5] = [0, 1, 5, 7, u64::MAX];
                let mut d = |n: u64| {
                    let r = i % n;
                    i /= n;
                    r as usize
                };
                let (kind, a, b, c, e, op, via) = (d(4), V[d(5)], V[d(5)], V[d(5)], V[d(5)], d(10), d(2));
                let ks = keys(4);
                let raw: Vec<Vec<u8>> = ks.iter().map(|k| pkb(&k.1)).collect();
                let pk: Vec<_> = ks.iter().map(|k| k.1).collect();
                let model = |many: bool, at: usize, f, n| {
                    if many {
                        Cond::many(Hm::P2sh, &raw[at..at + 2], 2, f, n)
                    } else {
                        Cond::single(Hm::P2pkh, &raw[at], f, n)
                    }
                };
                let real = |many: bool, at: usize, f, n| -> Box<dyn SpendingCondition> {
                    if many {
                        Box::new(SpendingConditionMultiSig::new(&pk[at..at + 2], f, n, 2, mode(Hm::P2sh)))
                    } else {
                        Box::new(SpendingConditionStandard::new(pk[at], f, n, mode(Hm::P2pkh)))
                    }
                };
                let (om, sm) = (kind % 2 == 1, kind / 2 == 1);
                let mut m = Tx {
                    version: 0x80,
                    chain: 0x8000_0000,
                    origin: model(om, 0, a, b),
                    sponsor: Some(model(sm, 2, c, e)),
                    anchor: 3,
                    pcmode: 2,
                    pcs: vec![],
                    pay: pays()[0].clone(),
                };
                let mut tx = ctx.sut("create", || build_tx(&m, real(om, 0, a, b), Some(real(sm, 2, c, e))))?;
                let v = V[op % 5];
                ctx.sut("set", || match (op < 5, via) {
                    (true, 0) => tx.set_fee(v),
                    (true, _) => tx.auth.set_fee(v),
                    (false, 0) => tx.set_nonce(v),
                    (false, _) => tx.auth.set_nonce(v),
                })?;
                if op < 5 {
                    m.origin.fee = v;
                } else {
                    m.origin.nonce = v;
                }
                tx_views(ctx, &tx, &m).map_err(|x| format!("origin {a}/{b}, sponsor {c}/{e}, set {} to {v}: {x}", ["fee", "nonce"][op / 5]))
            },
        ),
        stage("direct", 2 * 2 * 3 * 2 * 4 * 4 * 5, "Transaction::new with every version x chain x anchor x mode x payload x conditions x authorization kind", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let (m, tx) = auth_variant(ctx, d(5) as u64)?;
            let mut m = m;
            m.version = [0, 0x80][d(2)];
            m.chain = [1, 0x8000_0000][d(2)];
            m.anchor = 1 + d(3) as u8;
            m.pcmode = 1 + d(2) as u8;
            m.pay = pays()[d(4)].clone();
            m.pcs = pc_sets()[d(4)].clone();
            let auth = tx.auth.clone();
            let tx = match auth {
                Auth::Standard(o) => build_tx(&m, o, None),
                Auth::Sponsored(o, s) => build_tx(&m, o, Some(s)),
            };
            tx_views(ctx, &tx, &m)?;
            let cl = ctx.sut("clone", || tx.clone())?;
            tx_views(ctx, &cl, &m)
        }),
        stage("fees-multi", 4 * nf * nf, "multi-key and sponsored conditions with boundary fees and nonces", move |ctx, i| {
            let (mut m, mut tx) = auth_variant(ctx, 1 + i % 4)?;
            m.origin.fee = few3[(i / 4 % nf) as usize];
            m.origin.nonce = few3[(i / 4 / nf) as usize];
            let (f, n) = (m.origin.fee, m.origin.nonce);
            ctx.sut("set", || {
                tx.set_nonce(n);
                tx.set_fee(f);
            })?;
            tx_views(ctx, &tx, &m)
        }),
    ];
    Check {
        id: "C11",
        rule: "one case = one choice of all transaction ingredients (or one setter sequence); serialisation, length, hex and id compared with the model's consensus encoding",
        assumptions: assume(&["sponsored builders are unimplemented in the library and not exercised", "sha2/secp256k1 crates are correct"]),
        stages,
        isolated: vec![],
    }
}

pub fn every_type() -> Vec<T> {
    vec![
        T::Int(1),
        T::UInt(1),
        T::Buf(vec![5; 21]),
        T::True,
        T::False,
        T::Std(ADDR.into()),
        T::Con(ADDR.into(), "c".into()),
        T::Ok(Box::new(T::Std(ADDR.into()))),
        T::Err(Box::new(T::Std(ADDR.into()))),
        T::None,
        T::Some(Box::new(T::Std(ADDR.into()))),
        T::List(vec![T::Std(ADDR.into())]),
        T::Tup(vec![("a".into(), T::Std(ADDR.into()))]),
        T::Ascii(ADDR.into()),
        T::Utf8(ADDR.into()),
    ]
}

/// Unsigned transactions with each kind of authorization.
fn auth_variant(ctx: &mut Ctx, k: u64) -> Result<(Tx, Transaction), String> {
    let ks = keys(4);
    let pk: Vec<_> = ks.iter().map(|k| k.1).collect();
    let raw: Vec<Vec<u8>> = pk.iter().map(pkb).collect();
    let (o, s) = match k {
        0 => (Cond::single(Hm::P2wpkh, &raw[0], 3, 4), None),
        1 => (Cond::many(Hm::P2sh, &raw[..3], 2, 5, 6), None),
        2 => (Cond::many(Hm::P2wsh, &raw[1..], 1, 7, 8), None),
        3 => (Cond::single(Hm::P2pkh, &raw[1], 9, 10), Some(Cond::single(Hm::P2wpkh, &raw[2], 11, 12))),
        _ => (Cond::many(Hm::P2wsh, &raw, 4, 13, 14), Some(Cond::many(Hm::P2sh, &raw[..2], 2, 15, 16))),
    };
    let m = Tx { version: 0x80, chain: 0x8000_0000, origin: o, sponsor: s, anchor: 3, pcmode: 2, pcs: vec![], pay: pays()[0].clone() };
    let tx = ctx.sut("conditions", || {
        let single = |k: usize, f, n, h| Box::new(SpendingConditionStandard::new(pk[k], f, n, mode(h))) as Box<dyn SpendingCondition>;
        let many = |k: std::ops::Range<usize>, r, f, n, h| {
            Box::new(SpendingConditionMultiSig::new(&pk[k], f, n, r, mode(h))) as Box<dyn SpendingCondition>
        };
        let (o, s) = match k {
            0 => (single(0, 3, 4, Hm::P2wpkh), None),
            1 => (many(0..3, 2, 5, 6, Hm::P2sh), None),
            2 => (many(1..4, 1, 7, 8, Hm::P2wsh), None),
            3 => (single(1, 9, 10, Hm::P2pkh), Some(single(2, 11, 12, Hm::P2wpkh))),
            _ => (many(0..4, 4, 13, 14, Hm::P2wsh), Some(many(0..2, 2, 15, 16, Hm::P2sh))),
        };
        build_tx(&m, o, s)
    })?;
    Ok((m, tx))
}

// ------------------------------------------------------------------ C12

/// What a byte string denotes as a payload.
#[derive(Debug, Clone, PartialEq)]
enum DecPay {
    Transfer(T, u64, String),
    Call(u8, Vec<u8>, String, String, Vec<T>),
}

fn dec_pay(b: &[u8]) -> Option<(DecPay, usize)> {
    match b.first()? {
        0 => {
            let (to, n) = dec(&b[1..])?;
            if !matches!(to, T::Std(_) | T::Con(..)) {
                return None;
            }
            let mut at = 1 + n;
            let amount = u64::from_be_bytes(b.get(at..at + 8)?.try_into().unwrap());
            at += 8;
            let memo = utf8(b.get(at..at + 34)?)?;
            Some((DecPay::Transfer(to, amount, memo), at + 34))
        }
        2 => {
            let ver = *b.get(1)?;
            let hash = b.get(2..22)?.to_vec();
            let mut at = 22;
            let c = dec_name(b, &mut at)?;
            let f = dec_name(b, &mut at)?;
            let (args, n) = dec_args(&b[at..])?;
            Some((DecPay::Call(ver, hash, c, f, args), at + n))
        }
        _ => None,
    }
}

fn trim(s: &str) -> &str {
    s.trim_end_matches('\0')
}

/// Decoding bytes through all three entry points.
fn pay_bytes(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    ctx.state(b);
    let want = dec_pay(b);
    let dups = matches!(&want, Some((DecPay::Call(.., a), _)) if a.iter().any(has_dup));
    // Which versions a bare contract address may carry is not specified.
    let lenient = matches!(&want, Some((DecPay::Call(v, ..), _)) if !VERSIONS.contains(v));
    let again = |ctx: &mut Ctx, what: &str, r: Result<Vec<u8>, String>| -> Result<(), String> {
        let (_, n) = want.as_ref().unwrap();
        if dups {
            return Ok(());
        }
        let r = r.ok();
        let canonical: Option<Vec<u8>> = match &want.as_ref().unwrap().0 {
            DecPay::Transfer(..) => Some(b[..*n].to_vec()),
            DecPay::Call(.., args) => {
                let head = *n - enc_args(args).map_or(0, |a| a.len());
                enc_args(&args.iter().map(canon).collect::<Vec<_>>()).map(|a| [&b[..head], &a].concat())
            }
        };
        ctx.same(what, &r.as_deref().map(hexs), &canonical.as_deref().map(hexs))
    };
    let dynp = ctx.try_sut("Payload::decode", || <Box<dyn Payload> as Codec>::decode(b))?;
    if !lenient {
        ctx.same("Payload::decode accepts", &dynp.is_ok(), &want.is_some())?;
    }
    if let Ok(p) = dynp {
        let e = ctx.try_sut("encode", || p.encode())?;
        again(ctx, "re-encoding", e)?;
    }
    let tp = ctx.try_sut("TokenTransferPayload::decode", || TokenTransferPayload::decode(b))?;
    let is_t = matches!(want, Some((DecPay::Transfer(..), _)));
    ctx.same("TokenTransferPayload::decode accepts", &tp.is_ok(), &is_t)?;
    if let (Ok(p), Some((DecPay::Transfer(to, amount, memo), _))) = (tp, &want) {
        ctx.same("recipient", &reify(p.address.as_ref()), &Some(to.clone()))?;
        ctx.same("amount", &p.amount, amount)?;
        ctx.same("memo", &trim(&p.memo), &trim(memo))?;
        let e = ctx.try_sut("encode", || p.encode())?;
        again(ctx, "re-encoding", e)?;
    }
    let cp = ctx.try_sut("ContractCallPayload::decode", || ContractCallPayload::decode(b))?;
    let is_c = matches!(want, Some((DecPay::Call(..), _)));
    if !lenient {
        ctx.same("ContractCallPayload::decode accepts", &cp.is_ok(), &is_c)?;
    }
    if let (Ok(p), Some((DecPay::Call(v, h, c, f, args), _))) = (cp, &want) {
        ctx.same("version", &p.address.version, v)?;
        ctx.same("hash", &p.address.hash.as_bytes().to_vec(), h)?;
        ctx.same("contract", p.contract.value(), c)?;
        ctx.same("function", p.name.value(), f)?;
        if !dups {
            let got = reify_args(&p.args).map(|a| a.iter().map(canon).collect::<Vec<_>>());
            ctx.same("arguments", &got, &Some(args.iter().map(canon).collect()))?;
        }
        let e = ctx.try_sut("encode", || p.encode())?;
        again(ctx, "re-encoding", e)?;
    }
    Ok(())
}

/// Encoding a payload, and decoding the encoding (with and without bytes after it).
fn pay_value(ctx: &mut Ctx, p: &Pay) -> Result<(), String> {
    let go = |ctx: &mut Ctx| {
        let want = enc_pay(p);
        let Some(real) = ctx.sut("build", || build_pay(p))? else { return Ok(()) };
        codec_views(ctx, real.as_ref(), &want)?;
        codec_views(ctx, &real, &want)?;
        let cl = ctx.sut("clone", || real.clone())?;
        codec_views(ctx, cl.as_ref(), &want)?;
        if let Some(w) = want {
            pay_bytes(ctx, &w)?;
            let mut t = w.clone();
            t.extend([0, 5, 0xff]);
            pay_bytes(ctx, &t)?;
        }
        Ok(())
    };
    go(ctx).map_err(|m: String| format!("payload {}: {m}", short(p)))
}

fn c12(tier: Tier) -> Check {
    let on = |b: &[u8], m: String| format!("bytes {}: {m}", short(&hexs(b)));
    let all = u64s();
    let na = all.len() as u64;
    let wide = reaching(tier, 60);
    let (near, odd) = (address_texts(), odd_chars());
    let nodd = odd.len() as u64;
    let space = Space::new(leaves(), &["a", "bb"], 2, 2);
    let sn = space.count();
    let mut menu = leaves();
    menu.extend([
        T::Some(Box::new(T::Int(3))),
        T::Ok(Box::new(T::None)),
        T::List(vec![T::True, T::Buf(vec![1])]),
        T::Tup(vec![("b".into(), T::Int(1)), ("a".into(), T::UInt(2))]),
        T::Ascii("é".into()),
    ]);
    let arg_max = tier.pick(3, 4);
    let arg_n = words(menu.len() as u64, arg_max);
    // byte strings to mutate
    let seeds: Vec<Vec<u8>> = pays()
        .iter()
        .chain(&[
            Pay::Transfer(T::Std(ADDR.into()), 0, "x".repeat(34)),
            Pay::Transfer(T::Con(ADDR.into(), "n".repeat(3)), 1, "€uro".into()),
            Pay::Call(ADDR.into(), "".into(), "".into(), vec![T::None, T::Some(Box::new(T::Buf(vec![1, 2, 3]))), T::Con(ADDR_T.into(), "q".into())]),
        ])
        .map(|p| enc_pay(p).unwrap())
        .collect();
    let lens: Vec<u64> = seeds.iter().map(|s| s.len() as u64).collect();
    let total: u64 = lens.iter().sum();
    let (seeds2, seeds3, seeds4) = (seeds.clone(), seeds.clone(), seeds.clone());
    let (lens2, lens3) = (lens.clone(), lens.clone());
    let short_max = tier.pick(2, 3);
    const PAIR: [u8; 6] = [0, 1, 2, 5, 0x80, 0xff];
    let pair_total: u64 = lens.iter().map(|n| n * (n - 1) / 2 * 36).sum();
    let stages = vec![
        stage("memos", 41 * 4 * 3, "memos of 0..40 bytes and more, characters of 1..4 bytes, 3 recipients", |ctx, i| {
            let ch = ['x', 'é', '€', '𝄞'][(i % 4) as usize];
            let n = i / 4 % 41;
            let mut memo = String::new();
            while (memo.len() as u64) < n {
                memo.push(if memo.len() as u64 + ch.len_utf8() as u64 <= n { ch } else { 'z' });
            }
            let to = [T::Std(ADDR.into()), T::Std(ADDR_T.into()), T::Con(ADDR.into(), "nm".into())][(i / 4 / 41) as usize].clone();
            ctx.sample(|| format!("memo of {} bytes", memo.len()));
            pay_value(ctx, &Pay::Transfer(to, 77, memo))
        }),
        stage("memo-chars", 0x110000, "a memo made of every Unicode scalar value", |ctx, i| {
            let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
            let memo = format!("{c}m");
            let p = Pay::Transfer(T::Std(ADDR.into()), 77, memo);
            let want = enc_pay(&p);
            let real = ctx.sut("build", || build_pay(&p))?.unwrap();
            let got = ctx.try_sut("encode", || real.encode())?;
            ctx.same("encode", &got.ok(), &want).map_err(|m| format!("memo {c:?}: {m}"))?;
            let got = ctx.try_sut("decode", || TokenTransferPayload::decode(want.as_ref().unwrap()))?;
            ctx.same("memo", &got.ok().map(|p| trim(&p.memo).to_string()), &Some(format!("{c}m")))
        }),
        stage("memo-words", words(5, 7), "memos over {a, space, NUL, é, 0x7f} of <= 7 characters", |ctx, i| {
            let memo: String = nth_word(&['a', ' ', '\0', 'é', '\x7f'], i).into_iter().collect();
            pay_value(ctx, &Pay::Transfer(T::Con(ADDR.into(), "c".into()), 0, memo))
        }),
        stage("amounts", na * 3, "amounts near every power of two x 3 recipients", move |ctx, i| {
            let to = [T::Std(ADDR.into()), T::Std(ADDR_T.into()), T::Con(ADDR_T.into(), "a-b".into())][(i % 3) as usize].clone();
            pay_value(ctx, &Pay::Transfer(to, all[(i / 3) as usize], "hi".into()))
        }),
        stage("recipients", 15 + 300 + 4 * 64 + 8, "recipients of every type, names of 0..300 bytes, every version, malformed addresses", |ctx, i| {
            let t = if i < 15 {
                every_type()[i as usize].clone()
            } else if i < 315 {
                T::Con(ADDR.into(), "n".repeat((i - 15) as usize))
            } else if i < 315 + 256 {
                let k = i - 315;
                T::Std(address(&pattern(20, k / 4 % 6), VERSIONS[(k % 4) as usize]).unwrap())
            } else {
                let k = (i - 571) as usize;
                let bad = ["", "S", "SP", &ADDR[..40], "SP2JXKMSH007NPYAQHKJPQMAQYAD90NQGTVJVQ02C", "xyz", "SP000000000000000000002Q6VF78", "ST0é"];
                if k % 2 == 0 {
                    T::Std(bad[k].into())
                } else {
                    T::Con(bad[k].into(), "c".into())
                }
            };
            pay_value(ctx, &Pay::Transfer(t, 9, "m".into()))
        }),
        stage("names", 300 * 3 * 2, "contract and function names of 0..300 bytes, characters of 1..3 bytes", |ctx, i| {
            let ch = ["x", "é", "€"][(i % 3) as usize];
            let n = (i / 6) as usize;
            let mut s = ch.repeat(n / ch.len());
            s.push_str(&"z".repeat(n - s.len()));
            let p = if i / 3 % 2 == 0 {
                Pay::Call(ADDR.into(), s, "f".into(), vec![T::True])
            } else {
                Pay::Call(ADDR.into(), "c".into(), s, vec![T::True])
            };
            pay_value(ctx, &p)
        }),
        stage("address-texts", near.len() as u64 * 3, "every single edit of an address (48-character alphabet), and every odd character around it, as recipient and call target", move |ctx, i| {
            let a = near[(i / 3) as usize].clone();
            pay_value(
                ctx,
                &match i % 3 {
                    0 => Pay::Call(a, "c".into(), "f".into(), vec![T::True]),
                    1 => Pay::Transfer(T::Std(a), 1, "".into()),
                    _ => Pay::Transfer(T::Con(a, "c".into()), 1, "".into()),
                },
            )
        }),
        stage("text-characters", nodd * 6 * 4, format!("{nodd} characters alone, first, last, inside and doubled in contract name, function name, recipient name and memo"), move |ctx, i| {
            let s = placed(odd[(i / 24) as usize])[(i / 4 % 6) as usize].clone();
            pay_value(
                ctx,
                &match i % 4 {
                    0 => Pay::Call(ADDR.into(), s, "f".into(), vec![T::True]),
                    1 => Pay::Call(ADDR.into(), "c".into(), s, vec![T::True]),
                    2 => Pay::Transfer(T::Con(ADDR.into(), s), 1, "".into()),
                    _ => Pay::Transfer(T::Std(ADDR.into()), 1, s),
                },
            )
        }),
        stage("name-pairs", 12 * 12, "pairs of contract and function names at the length boundaries", |ctx, i| {
            const L: [usize; 12] = [0, 1, 2, 63, 64, 126, 127, 128, 129, 130, 255, 256];
            pay_value(
                ctx,
                &Pay::Call(ADDR_T.into(), "c".repeat(L[(i % 12) as usize]), "f".repeat(L[(i / 12) as usize]), vec![]),
            )
        }),
        stage("call-addresses", 4 * 6 * 20, "call targets of every version and hash shape", |ctx, i| {
            let mut h = pattern(20, i / 4 % 6);
            h[(i / 24) as usize] ^= 0x5a;
            let a = address(&h, VERSIONS[(i % 4) as usize]).unwrap();
            pay_value(ctx, &Pay::Call(a, "c".into(), "f".into(), vec![T::UInt(i as u128)]))
        }),
        stage("arguments", sn, "one argument: every value of depth <= 2, width <= 2 over 11 leaves", move |ctx, i| {
            pay_value(ctx, &Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![space.nth(i)]))
        }),
        stage("argument-lists", arg_n, format!("every list of <= {arg_max} arguments out of 16 (one not encodable)"), move |ctx, i| {
            let args: Vec<T> = nth_word(&menu, i);
            pay_value(ctx, &Pay::Call(ADDR.into(), "c".into(), "f".into(), args))
        }),
        stage("big-arguments", wide.len() as u64 * 4, "calls whose argument (buffer, string or list) brings the payload to every length around 2^8, 2^12 and 2^16", move |ctx, i| {
            let arg = big_leaf(i % 4, wide[(i / 4) as usize]);
            pay_value(ctx, &Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![arg, T::UInt(7)]))
        }),
        stage("argument-counts", 600, "0..600 arguments", |ctx, i| {
            let args = (0..i).map(|k| if k % 3 == 0 { T::True } else { T::UInt(k as u128) }).collect();
            pay_value(ctx, &Pay::Call(ADDR.into(), "c".into(), "f".into(), args))
        }),
        stage("short-bytes", words(256, short_max), format!("every byte string of <= {short_max} bytes"), move |ctx, i| {
            let b = nth_bytes(i);
            pay_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("truncations", total + 7, "every prefix of 7 encodings", move |ctx, mut i| {
            for s in &seeds2 {
                if i <= s.len() as u64 {
                    return pay_bytes(ctx, &s[..i as usize]).map_err(|m| on(&s[..i as usize], m));
                }
                i -= s.len() as u64 + 1;
            }
            unreachable!()
        }),
        stage("byte-edits", total * 256 * 3, "every byte of 7 encodings replaced by, preceded by or followed by every value", move |ctx, i| {
            let (k, mut p) = (i / 256 % 3, i / 768);
            let mut b = vec![];
            for (s, n) in seeds3.iter().zip(&lens2) {
                if p < *n {
                    b = s.clone();
                    break;
                }
                p -= n;
            }
            match k {
                0 => b[p as usize] = i as u8,
                1 => b.insert(p as usize, i as u8),
                _ => b.insert(p as usize + 1, i as u8),
            }
            pay_bytes(ctx, &b).map_err(|m| on(&b, m))
        }),
        stage("pair-edits", pair_total, "every pair of bytes of 7 encodings replaced by 6 x 6 values", move |ctx, mut i| {
            for (s, n) in seeds4.iter().zip(&lens3) {
                let cnt = n * (n - 1) / 2 * 36;
                if i >= cnt {
                    i -= cnt;
                    continue;
                }
                let (x, y) = (PAIR[(i % 6) as usize], PAIR[(i / 6 % 6) as usize]);
                let mut k = i / 36;
                let mut p = 0;
                while k >= n - 1 - p {
                    k -= n - 1 - p;
                    p += 1;
                }
                let mut b = s.clone();
                b[p as usize] = x;
                b[(p + 1 + k) as usize] = y;
                return pay_bytes(ctx, &b).map_err(|m| on(&b, m));
            }
            unreachable!()
        }),
    ];
    Check {
        id: "C12",
        rule: "one case = one payload (encoded, cloned, decoded through all entry points) or one byte string (decoded through all entry points)",
        assumptions: assume(&[
            "a contract-call address with an unknown version byte may be accepted or refused",
            "duplicate tuple keys inside arguments are not judged",
            "decoded memos are compared up to trailing zero bytes",
        ]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C13

#[path = "pc_shapes.rs"]
mod pc_shapes;

pub struct Args {
    p0: PrincipalStandard,
    p1: PrincipalContract,
    p2: PrincipalStandard,
    p3: PrincipalContract,
    v0: UInt,
    v1: Tuple,
    v2: StringAscii,
    v3: OptionalSome,
    n: [u64; 4],
    c: [ConditionCode; 4],
    i: [AssetInfo; 4],
}

fn pc_one(ctx: &mut Ctx, p: &Pc) -> Result<(), String> {
    let go = |ctx: &mut Ctx| {
        let want = enc_pc(p);
        if let Some(w) = &want {
            ctx.state(w);
        }
        let c = ctx.sut("build", || build_pc(p))?;
        codec_views(ctx, c.as_ref(), &want)?;
        let cl = ctx.sut("clone", || c.clone())?;
        let got = ctx.try_sut("encode", || cl.encode())?;
        ctx.same("encode of a clone", &got.ok(), &want)?;
        if let Pc::Nft(who, id, code, a) = p {
            let n = ctx.sut("NonFungiblePostCondition::new", || {
                typed!(who, w => typed!(id, x => NonFungiblePostCondition::new(w, x, CODES[*code].0, build_asset(a))))
            })?;
            let got = ctx.try_sut("encode", || n.encode())?;
            ctx.same("encode (new)", &got.ok(), &want)?;
        }
        // alone and in company
        let with = [p.clone(), Pc::Stx(T::Std(ADDR.into()), 1, 0)];
        let set = ctx.sut("PostConditions", || build_pcs(&with))?;
        let got = ctx.try_sut("encode", || set.encode())?;
        ctx.same("encode of a set", &got.ok(), &enc_pcs(&with))
    };
    go(ctx).map_err(|m: String| format!("{}: {m}", short(p)))
}

/// A set of conditions, its clone, and its members by reference, iteration and consumption.
fn pc_set(ctx: &mut Ctx, set: &[Pc]) -> Result<(), String> {
    let want = enc_pcs(set);
    let s = ctx.sut("PostConditions::new", || build_pcs(set))?;
    codec_views(ctx, &s, &want)?;
    let c = ctx.sut("clone", || s.clone())?;
    codec_views(ctx, &c, &want)?;
    let n = ctx.sut("value", || s.value().len())?;
    ctx.same("conditions held", &n, &set.len())?;
    let items = ctx.sut("into_iter", || s.into_iter().collect::<Vec<_>>())?;
    for (it, p) in items.iter().zip(set) {
        let e = ctx.try_sut("encode", || it.encode())?;
        ctx.same("item", &e.ok(), &enc_pc(p))?;
    }
    ctx.same("items", &items.len(), &set.len())?;
    let items = ctx.sut("into_value", || c.into_value())?;
    ctx.same("items", &items.len(), &set.len())
}

fn c13(tier: Tier) -> Check {
    let all = u64s();
    let na = all.len() as u64;
    let wide = reaching(tier, 110);
    let space = Space::new(leaves(), &["a", "bb"], 2, 2);
    let sn = space.count();
    let depth = tier.pick(4, 5);
    let nmenu = pc_menu().len() as u64;
    let (near, odd) = (address_texts(), odd_chars());
    let nodd = odd.len() as u64;
    let who = |i: u64| match i % 4 {
        0 => T::Std(ADDR.into()),
        1 => T::Std(ADDR_T.into()),
        2 => T::Con(ADDR.into(), "con".into()),
        _ => T::Con(ADDR_T.into(), "n".repeat(128)),
    };
    let stages = vec![
        stage("amounts", na * 7 * 4 * 2, "every condition code x principal x amount near every power of two, STX and fungible", move |ctx, i| {
            let w = who(i);
            let code = (i / 4 % 7) as usize;
            let a = all[(i / 56) as usize];
            let p = if i / 28 % 2 == 0 { Pc::Stx(w, a, code) } else { Pc::Ft(w, a, code, asset(i)) };
            ctx.sample(|| short(&p));
            pc_one(ctx, &p)
        }),
        stage("assets", 4 * 7 * 6 * 6 * 6 * 2, "codes x principals x asset addresses (valid and not) x contract and asset names of 0..129 bytes", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r
            };
            let w = who(d(4));
            let code = d(7) as usize;
            let addr = [ADDR.to_string(), ADDR_T.into(), address(&[0; 20], 20).unwrap(), address(&[255; 20], 21).unwrap(), "SP".into(), ADDR.replace("VQ02B", "VQ02C")][d(6) as usize].clone();
            let names = ["".to_string(), "n".into(), "é€".into(), "x".repeat(127), "x".repeat(128), "x".repeat(129)];
            let a = Asset(addr, names[d(6) as usize].clone(), names[d(6) as usize].clone());
            pc_one(ctx, &if d(2) == 0 { Pc::Ft(w, 55, code, a) } else { Pc::Nft(w, T::UInt(3), code, a) })
        }),
        stage("asset-names", 300 * 2, "asset info names of 0..300 bytes", |ctx, i| {
            let mut a = asset(0);
            let n = "q".repeat((i / 2) as usize);
            if i % 2 == 0 {
                a.1 = n
            } else {
                a.2 = n
            }
            let info = ctx.sut("AssetInfo::new", || build_asset(&a))?;
            codec_views(ctx, &info, &enc_asset(&a)).map_err(|m| format!("{a:?}: {m}"))
        }),
        stage("address-texts", near.len() as u64 * 7, "every single edit of an address (48-character alphabet), and every odd character around it, as principal, contract principal and asset contract of every kind of condition", move |ctx, i| {
            let a = near[(i / 7) as usize].clone();
            let me = || T::Std(ADDR.into());
            let at = |a: String| Asset(a, "con".into(), "ass".into());
            pc_one(
                ctx,
                &match i % 7 {
                    0 => Pc::Stx(T::Std(a), 1, 0),
                    1 => Pc::Stx(T::Con(a, "c".into()), 1, 0),
                    2 => Pc::Ft(T::Std(a), 1, 1, asset(0)),
                    3 => Pc::Ft(me(), 1, 1, at(a)),
                    4 => Pc::Nft(T::Con(a, "c".into()), T::Int(1), 6, asset(0)),
                    5 => Pc::Nft(me(), T::Int(1), 6, at(a)),
                    _ => Pc::Nft(me(), T::Std(a), 6, asset(0)),
                },
            )
        }),
        stage("text-characters", nodd * 6 * 6, format!("{nodd} characters alone, first, last, inside and doubled in the names of principals, asset contracts and assets, and in the asset value"), move |ctx, i| {
            let s = placed(odd[(i / 36) as usize])[(i / 6 % 6) as usize].clone();
            let me = || T::Std(ADDR.into());
            pc_one(
                ctx,
                &match i % 6 {
                    0 => Pc::Stx(T::Con(ADDR.into(), s), 1, 0),
                    1 => Pc::Ft(me(), 1, 1, Asset(ADDR.into(), s, "a".into())),
                    2 => Pc::Ft(T::Con(ADDR.into(), s.clone()), 1, 1, Asset(ADDR.into(), "c".into(), s)),
                    3 => Pc::Nft(me(), T::Utf8(s.clone()), 6, Asset(ADDR.into(), s, "a".into())),
                    4 => Pc::Nft(me(), T::Ascii(s.clone()), 6, Asset(ADDR.into(), "c".into(), s)),
                    _ => Pc::Nft(T::Con(ADDR.into(), s), T::Int(1), 6, asset(0)),
                },
            )
        }),
        stage("principal-types", 15 * 3 * 7, "a principal of every Clarity type: refused unless a principal", |ctx, i| {
            let w = every_type()[(i % 15) as usize].clone();
            let code = (i / 45) as usize;
            pc_one(
                ctx,
                &match i / 15 % 3 {
                    0 => Pc::Stx(w, 1, code),
                    1 => Pc::Ft(w, 1, code, asset(0)),
                    _ => Pc::Nft(w, T::Int(1), code, asset(0)),
                },
            )
        }),
        stage("principal-text", 3 * (300 + 8 + 24), "contract names of 0..300 bytes, malformed addresses, every version and hash shape", |ctx, i| {
            let k = i / 3;
            let w = if k < 300 {
                T::Con(ADDR.into(), "n".repeat(k as usize))
            } else if k < 308 {
                let bad = ["", "S", "SP", &ADDR[..40], "SP2JXKMSH007NPYAQHKJPQMAQYAD90NQGTVJVQ02C", "xyz", "SP000000000000000000002Q6VF78", "ST0é"];
                if k % 2 == 0 {
                    T::Std(bad[(k - 300) as usize].into())
                } else {
                    T::Con(bad[(k - 300) as usize].into(), "c".into())
                }
            } else {
                T::Std(address(&pattern(20, (k - 308) % 6), VERSIONS[((k - 308) / 6) as usize]).unwrap())
            };
            pc_one(
                ctx,
                &match i % 3 {
                    0 => Pc::Stx(w, 1, 0),
                    1 => Pc::Ft(w, 1, 1, asset(0)),
                    _ => Pc::Nft(w, T::Int(1), 6, asset(0)),
                },
            )
        }),
        stage("asset-values", sn, "non-fungible conditions naming every value of depth <= 2, width <= 2 over 11 leaves", move |ctx, i| {
            pc_one(ctx, &Pc::Nft(who(i), space.nth(i), 5 + (i % 2) as usize, asset(i / 2)))
        }),
        stage("big-asset-values", wide.len() as u64 * 4, "non-fungible conditions naming a buffer, string or list that brings the condition to every length around 2^8, 2^12 and 2^16", move |ctx, i| {
            let v = big_leaf(i % 4, wide[(i / 4) as usize]);
            pc_one(ctx, &Pc::Nft(who(i), v, 5 + (i % 2) as usize, asset(i / 2)))
        }),
        stage("asset-length-prefixed", 129 * 2, "non-fungible conditions naming a length-prefixed text", move |ctx, i| {
            let s = "t".repeat((i / 2) as usize);
            let (w, a) = (who(i), asset(0));
            let code = 5 + (i % 2) as usize;
            let c = ctx.sut("new", || typed!(&w, p => NonFungiblePostCondition::new(p, LengthPrefixedStr::new(s.clone()), CODES[code].0, build_asset(&a))))?;
            let mut want = enc_pc(&Pc::Nft(w.clone(), T::None, code, a.clone())).unwrap();
            want.truncate(want.len() - 2);
            want.extend(enc_name(&s).unwrap());
            want.push(CODES[code].1);
            codec_views(ctx, &c, &Some(want))
        }),
        stage("sets", words(7, depth), format!("every sequence of <= {depth} conditions out of 7 (one of them not encodable)"), |ctx, i| {
            let menu = [
                Pc::Stx(T::Std(ADDR.into()), 1, 0),
                Pc::Stx(T::Con(ADDR_T.into(), "c".into()), 1, 0),
                Pc::Ft(T::Std(ADDR.into()), 1, 2, asset(0)),
                Pc::Ft(T::Con(ADDR.into(), "d".into()), 2, 3, asset(1)),
                Pc::Nft(T::Std(ADDR_T.into()), T::Buf(vec![1]), 5, asset(1)),
                Pc::Nft(T::Con(ADDR_T.into(), "e".into()), T::List(vec![T::None]), 6, asset(0)),
                Pc::Stx(T::UInt(1), 1, 0),
            ];
            let w = nth_word(&[0usize, 1, 2, 3, 4, 5, 6], i);
            let set: Vec<Pc> = w.iter().map(|k| menu[*k].clone()).collect();
            pc_set(ctx, &set).map_err(|m: String| format!("set {w:?}: {m}"))
        }),
        stage("set-neighbours", nmenu * nmenu * 6, format!("sets in which every ordered pair of {nmenu} conditions (short and long, of every kind) stands together, apart, repeated and mixed"), |ctx, i| {
            let menu = pc_menu();
            let n = menu.len() as u64;
            let (a, b) = (menu[(i / 6 % n) as usize].clone(), menu[(i / 6 / n) as usize].clone());
            let set = match i % 6 {
                0 => vec![a, b],
                1 => vec![a.clone(), a, b],
                2 => vec![a.clone(), b.clone(), b, a],
                3 => vec![a.clone(), b.clone(), a, b],
                4 => vec![a.clone(), a.clone(), a.clone(), b, a],
                _ => vec![Pc::Stx(T::Std(ADDR.into()), 1, 0), a.clone(), a, b.clone(), b],
            };
            ctx.state(&enc_pcs(&set).unwrap());
            pc_set(ctx, &set).map_err(|m| format!("{set:?}: {m}"))
        }),
        stage("set-sizes", 400, "sets of 0..400 conditions", |ctx, i| {
            let set: Vec<Pc> = (0..i).map(|k| Pc::Stx(T::Std(ADDR.into()), k, (k % 7) as usize)).collect();
            pc_set(ctx, &set).map_err(|m| format!("{i} conditions: {m}"))
        }),
        stage("default", 3, "empty sets by new, default and macro", |ctx, i| {
            let s = ctx.sut("empty", || match i {
                0 => PostConditions::new(vec![]),
                1 => PostConditions::default(),
                _ => stacks_rs::post_condition!(),
            })?;
            codec_views(ctx, &s, &Some(vec![0; 4]))
        }),
        stage("macro", pc_shapes::SHAPES.len() as u64 * 7, "every sequence of <= 4 condition kinds through the macro x 7 codes", |ctx, i| {
            let k = (i / 7) as usize;
            let code = |j: u64| ((i + j) % 7) as usize;
            let n = [1, u64::MAX, 0x0102_0304_0506_0708, 4];
            let ps = [T::Std(ADDR.into()), T::Con(ADDR_T.into(), "one".into()), T::Std(ADDR_T.into()), T::Con(ADDR.into(), "three".into())];
            let vs = [T::UInt(5), T::Tup(vec![("b".into(), T::True), ("a".into(), T::False)]), T::Ascii("v".into()), T::Some(Box::new(T::None))];
            let (s, a) = ctx.sut("macro", || {
                let a = Args {
                    p0: PrincipalStandard::new(ADDR.into()),
                    p1: PrincipalContract::new((ADDR_T.into(), "one".into())),
                    p2: PrincipalStandard::new(ADDR_T.into()),
                    p3: PrincipalContract::new((ADDR.into(), "three".into())),
                    v0: UInt::new(5),
                    v1: Tuple::new(vec![("b".into(), Box::new(True::new())), ("a".into(), Box::new(False::new()))]),
                    v2: StringAscii::new("v".into()),
                    v3: OptionalSome::new(Box::new(OptionalNone::new())),
                    n,
                    c: [0, 1, 2, 3].map(|j| CODES[code(j)].0),
                    i: [0, 1, 2, 3].map(|j| build_asset(&asset(j))),
                };
                (pc_shapes::build(k, &a), a)
            })?;
            let set: Vec<Pc> = pc_shapes::SHAPES[k]
                .iter()
                .enumerate()
                .map(|(j, kind)| match kind {
                    0 => Pc::Stx(ps[j].clone(), n[j], code(j as u64)),
                    1 => Pc::Ft(ps[j].clone(), n[j], code(j as u64), asset(j as u64)),
                    _ => Pc::Nft(ps[j].clone(), vs[j].clone(), code(j as u64), asset(j as u64)),
                })
                .collect();
            codec_views(ctx, &s, &enc_pcs(&set)).map_err(|m| format!("{:?}: {m}", pc_shapes::SHAPES[k]))?;
            // the single-condition form
            if let [kind] = pc_shapes::SHAPES[k] {
                let one: Box<dyn Condition> = ctx.sut("macro", || match kind {
                    0 => stacks_rs::post_condition!(STXCondition, a.p0.clone(), a.n[0], a.c[0]),
                    1 => stacks_rs::post_condition!(FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()),
                    _ => stacks_rs::post_condition!(NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()),
                })?;
                codec_views(ctx, one.as_ref(), &enc_pc(&set[0]))?;
            }
            Ok(())
        }),
    ];
    Check {
        id: "C13",
        rule: "one case = one post-condition or one sequence of them; encoding compared with the model's",
        assumptions: assume(&["which condition codes make sense for which asset kind is not restricted by the library and not judged"]),
        stages,
        isolated: vec![],
    }
}
