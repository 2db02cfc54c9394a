//! C14..C16: signing, signing sessions, verification.

use crate::tx::{every_type, pays, pc_many, pc_sets, reaching, tx_views, u64s};
use harness::engine::*;
use harness::refs::*;
use harness::term::*;
use harness::txm::*;
use secp256k1::{PublicKey, Secp256k1, SecretKey};
use stacks_rs::clarity::Codec;
use stacks_rs::crypto::{MessageSignature, SignatureHash};
use stacks_rs::transaction::*;

pub fn registry() -> Registry {
    vec![("C14", c14), ("C15", c15), ("C16", c16)]
}

fn assume(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn sighash(h: &[u8]) -> SignatureHash {
    SignatureHash(h.try_into().unwrap())
}

/// A spending condition to create: key indices into the common key list.
#[derive(Clone, Debug)]
pub struct Spec {
    pub hm: Hm,
    pub keys: Vec<usize>,
    pub required: u8,
    pub fee: u64,
    pub nonce: u64,
}

thread_local!(static KEYS: Vec<(SecretKey, PublicKey)> = keys(20));
/// From here on a key index is the key itself: the number it exceeds this by.
const NUMBERED: usize = 1_000_000;
fn sk(i: usize) -> SecretKey {
    if i > NUMBERED {
        let mut b = [0; 32];
        b[24..].copy_from_slice(&((i - NUMBERED) as u64).to_be_bytes());
        return SecretKey::from_slice(&b).unwrap();
    }
    KEYS.with(|k| k[i].0)
}
fn pk(i: usize) -> PublicKey {
    if i > NUMBERED {
        return sk(i).public_key(&Secp256k1::new());
    }
    KEYS.with(|k| k[i].1)
}

/// Pairs of (numbered) keys whose signer hashes agree in the four bytes at
/// offset 0, 1, ... 16, for P2PKH, 1-of-1 P2SH, P2WPKH and 1-of-1 P2WSH.
const NEAR: [[(u32, u32); 17]; 4] = [
    [(463, 14200), (107294, 142249), (72416, 78978), (79134, 110002), (43618, 54399), (14062, 16297), (42151, 98638), (20773, 73676), (93362, 98571), (125619, 131570), (21251, 25775), (94677, 100834), (46353, 106708), (55013, 128382), (62099, 93066), (78828, 126323), (99126, 124471)],
    [(244439, 247300), (6612, 12808), (7431, 100226), (1015, 16734), (78092, 124130), (34321, 67456), (10742, 105027), (6813, 77047), (11792, 108364), (67531, 105050), (7929, 129165), (52265, 109975), (149, 47327), (12175, 166499), (97681, 138465), (252, 38196), (20249, 30438)],
    [(58931, 147950), (47801, 73827), (24272, 51283), (109837, 115626), (109474, 215450), (52409, 116331), (11159, 28292), (31450, 45614), (110549, 124824), (57918, 71546), (13590, 54705), (96587, 179415), (9853, 16371), (10728, 51542), (10728, 51542), (38379, 47346), (15027, 55750)],
    [(62925, 101123), (37703, 72110), (33825, 149237), (25491, 50173), (5675, 69289), (35246, 119973), (26912, 77724), (5176, 50099), (46361, 97172), (67250, 118984), (45769, 73565), (42417, 113380), (23338, 46893), (56896, 109441), (9150, 132367), (88519, 139994), (8216, 17109)],
];
/// Further P2PKH pairs that agree in their first or last six bytes.
const NEARER: [(u32, u32); 4] = [(23743304, 24042223), (14521545, 27777603), (3391417, 19225691), (1511514, 10372337)];
const NEAR_MODES: [Hm; 4] = [Hm::P2pkh, Hm::P2sh, Hm::P2wpkh, Hm::P2wsh];
fn near() -> Vec<(Hm, usize, usize)> {
    let mut v = vec![];
    for (hm, ps) in NEAR_MODES.iter().zip(NEAR) {
        v.extend(ps.map(|(a, b)| (*hm, a, b)));
    }
    v.extend(NEARER.map(|(a, b)| (Hm::P2pkh, a, b)));
    v.into_iter().flat_map(|(h, a, b)| [(h, a, b), (h, b, a)]).map(|(h, a, b)| (h, a as usize + NUMBERED, b as usize + NUMBERED)).collect()
}

impl Spec {
    fn one(hm: Hm, key: usize, fee: u64, nonce: u64) -> Self {
        Spec { hm, keys: vec![key], required: 1, fee, nonce }
    }
    fn many(hm: Hm, keys: &[usize], required: u8, fee: u64, nonce: u64) -> Self {
        Spec { hm, keys: keys.to_vec(), required, fee, nonce }
    }
    fn is_multi(&self) -> bool {
        MULTI.contains(&self.hm)
    }
    fn model(&self) -> Cond {
        let raw: Vec<Vec<u8>> = self.keys.iter().map(|k| pkb(&pk(*k))).collect();
        if self.is_multi() {
            Cond::many(self.hm, &raw, self.required, self.fee, self.nonce)
        } else {
            Cond::single(self.hm, &raw[0], self.fee, self.nonce)
        }
    }
    fn real(&self) -> Box<dyn SpendingCondition> {
        if self.is_multi() {
            let ks: Vec<PublicKey> = self.keys.iter().map(|k| pk(*k)).collect();
            Box::new(SpendingConditionMultiSig::new(ks, self.fee, self.nonce, self.required, mode(self.hm)))
        } else {
            Box::new(SpendingConditionStandard::new(pk(self.keys[0]), self.fee, self.nonce, mode(self.hm)))
        }
    }
}

/// Creates the unsigned transaction in model and implementation.
fn make(ctx: &mut Ctx, shape: &Tx, o: &Spec, s: Option<&Spec>) -> Result<(Tx, Transaction), String> {
    let mut m = shape.clone();
    m.origin = o.model();
    m.sponsor = s.map(Spec::model);
    let tx = ctx.sut("create transaction", || build_tx(&m, o.real(), s.map(Spec::real)))?;
    Ok((m, tx))
}

fn shape(net: Net, anchor: u8, pcmode: u8, pay: usize, pcs: usize) -> Tx {
    Tx {
        version: net.version(),
        chain: net.chain(),
        origin: empty_sponsor(),
        sponsor: None,
        anchor,
        pcmode,
        pcs: pc_sets()[pcs].clone(),
        pay: pays()[pay].clone(),
    }
}
fn plain() -> Tx {
    shape(Net::Test, 3, 1, 0, 0)
}

/// The implementation's own signing hash of a transaction.
fn initial_of(ctx: &mut Ctx, tx: &Transaction) -> Result<Vec<u8>, String> {
    let r = ctx.try_sut("reset and hash", || {
        let mut t = tx.clone();
        t.auth = t.auth.reset();
        t.hash()
    })?;
    r.map(|h| h.into_bytes().to_vec())
}

fn verifies(ctx: &mut Ctx, tx: &Transaction, h: &[u8]) -> Result<bool, String> {
    Ok(ctx.try_sut("verify", || tx.auth.verify(sighash(h)))?.is_ok())
}

// ------------------------------------------------------------------ C14

fn sign_case(ctx: &mut Ctx, shape: &Tx, o: &Spec, wrong: usize) -> Result<(), String> {
    let go = |ctx: &mut Ctx| -> Result<(), String> {
        let (m, tx) = make(ctx, shape, o, None)?;
        let key = o.keys[0];
        let h0 = m.initial().ok_or("model: not encodable")?;
        ctx.state(&h0);
        let got = initial_of(ctx, &tx)?;
        ctx.same("signing hash", &hexs(&got), &hexs(&h0))?;
        let v = verifies(ctx, &tx, &h0)?;
        ctx.same("unsigned transaction verifies", &v, &false)?;
        for k in [key, wrong] {
            let (sig, _) = sign_step(&h0, 4, &m.origin, &sk(k));
            let mut want = m.clone();
            want.origin.sig = sig;
            let signed = ctx.try_sut("sign", || tx.clone().sign(sk(k)))?;
            let signed = signed.map_err(|e| format!("signing failed: {e}"))?;
            tx_views(ctx, &signed, &want).map_err(|e| format!("signed transaction: {e}"))?;
            let v = verifies(ctx, &signed, &h0)?;
            ctx.same("signed transaction verifies", &v, &(k == key))?;
            let again = initial_of(ctx, &signed)?;
            ctx.same("signing hash of the signed transaction", &hexs(&again), &hexs(&h0))?;
            let n = ctx.sut("signatures", || (signed.auth.origin().signatures(), signed.auth.origin().req_signatures()))?;
            ctx.same("signature counts", &n, &(1, 1))?;
            let k2 = if k == key { wrong } else { key };
            let re = ctx.try_sut("sign again", || signed.clone().sign(sk(k)))?;
            ctx.same("signing again is accepted", &re.is_ok(), &false)?;
            let re = ctx.try_sut("sign again", || signed.clone().sign(sk(k2)))?;
            ctx.same("signing again with another key is accepted", &re.is_ok(), &false)?;
        }
        // the transaction that was cloned is still unsigned
        tx_views(ctx, &tx, &m)
    };
    go(ctx).map_err(|e| format!("{o:?}, payload {}: {e}", short(&shape.pay)))
}

/// The signing-hash primitives, for one hash/type/fee/nonce/key.
fn primitives(ctx: &mut Ctx, h: &[u8], typ: u8, fee: u64, nonce: u64, key: usize) -> Result<(), String> {
    let pre = presign(h, typ, fee, nonce);
    ctx.state(&pre);
    let g = ctx.sut("make_presign_hash", || SignatureHash::make_presign_hash(sighash(h), typ, fee, nonce).into_bytes().to_vec())?;
    ctx.same("presign hash", &hexs(&g), &hexs(&pre))?;
    let sig = sign65(&pre, &sk(key));
    let post = postsign(&pre, &sig);
    let g = ctx.sut("make_postsign_hash", || {
        SignatureHash::make_postsign_hash(sighash(&pre), MessageSignature::new(&sig)).into_bytes().to_vec()
    })?;
    ctx.same("postsign hash", &hexs(&g), &hexs(&post))?;
    let g = ctx.try_sut("next_signature", || SignatureHash::next_signature(sighash(h), typ, fee, nonce, sk(key)))?;
    let g = g.ok().map(|(s, n)| (hexs(s.as_bytes()), hexs(n.as_bytes())));
    ctx.same("next_signature", &g, &Some((hexs(&sig), hexs(&post))))?;
    let g = ctx.try_sut("next_verify", || SignatureHash::next_verify(sighash(h), typ, fee, nonce, MessageSignature::new(&sig)))?;
    let g = g.ok().map(|(k, n)| (hexs(&k.serialize()), hexs(n.as_bytes())));
    ctx.same("next_verify", &g, &Some((hexs(&pkb(&pk(key))), hexs(&post))))
}

fn c14(tier: Tier) -> Check {
    let few = [0, 1, 256, 1 << 32, 0x0102_0304_0506_0708, u64::MAX];
    let all = u64s();
    let na = all.len() as u64;
    let vals = Space::new(leaves(), &["a", "bb"], 2, 1);
    let vn = vals.count();
    let kk = tier.pick(16u64, 20);
    let (all2, all3) = (all.clone(), all.clone());
    let pair = tier.pick(60u64, na);
    let wide = reaching(tier, 170);
    let huge: Vec<usize> = tier.pick(&[17u32, 18, 20][..], &[17, 18, 19, 20, 21, 22][..]).iter().map(|k| (1 << k) + 1).collect();
    let near14: Vec<_> = near().into_iter().filter(|(hm, ..)| SINGLE.contains(hm)).collect();
    let nn = near14.len() as u64;
    let stages = vec![
        stage(
            "grid",
            3 * 3 * 2 * 4 * 4 * 2 * 4,
            "every network x anchor mode x post-condition mode x 4 payloads x 4 condition sets x 2 hash modes x 4 fee/nonce choices; right and wrong key",
            move |ctx, mut i| {
                let mut d = |n: u64| {
                    let r = i % n;
                    i /= n;
                    r as usize
                };
                let sh = shape(NETS[d(3)], 1 + d(3) as u8, 1 + d(2) as u8, d(4), d(4));
                let hm = SINGLE[d(2)];
                let v = d(4);
                ctx.sample(|| format!("{hm:?} {}", short(&sh.pay)));
                sign_case(ctx, &sh, &Spec::one(hm, v, few[v], few[5 - v]), 5)
            },
        ),
        stage("fee-nonce", 36 * 2, "6 x 6 boundary fees and nonces x 2 hash modes", move |ctx, i| {
            sign_case(ctx, &plain(), &Spec::one(SINGLE[(i % 2) as usize], 2, few[(i / 2 % 6) as usize], few[(i / 12) as usize]), 3)
        }),
        stage("fees", na * 2, "fees, then nonces, near every power of two", move |ctx, i| {
            let v = all[(i / 2) as usize];
            let s = if i % 2 == 0 { Spec::one(Hm::P2pkh, 2, v, 1) } else { Spec::one(Hm::P2wpkh, 2, 1, v) };
            sign_case(ctx, &plain(), &s, 3)
        }),
        stage("keys", kk * kk * 2, "every ordered pair of sender and wrong key x 2 hash modes", move |ctx, i| {
            let (a, b) = ((i / 2 % kk) as usize, (i / 2 / kk) as usize);
            if a == b {
                return Ok(());
            }
            sign_case(ctx, &plain(), &Spec::one(SINGLE[(i % 2) as usize], a, 7, 8), b)
        }),
        stage("near-keys", nn, "keys whose signer hashes agree in any four adjacent bytes (or the first or last six), each signing for the other", move |ctx, i| {
            let (hm, a, b) = near14[i as usize];
            sign_case(ctx, &plain(), &Spec::one(hm, a, 3, 4), b)
        }),
        stage("values", vn, "contract calls with every argument of depth <= 1", move |ctx, i| {
            let mut sh = plain();
            sh.pay = Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![vals.nth(i)]);
            if enc_pay(&sh.pay).is_none() {
                return Ok(());
            }
            sign_case(ctx, &sh, &Spec::one(Hm::P2pkh, 4, 1, 2), 6)
        }),
        stage("set-sizes", 300 * 2 * 2, "0..300 post-conditions of every kind x modes x payload kinds", |ctx, i| {
            let mut sh = shape(NETS[(i % 3) as usize], 1 + (i % 3) as u8, 1 + (i / 2 % 2) as u8, (i % 2 * 2) as usize, 0);
            sh.pcs = pc_many((i / 4) as usize);
            sign_case(ctx, &sh, &Spec::one(SINGLE[(i / 4 % 2) as usize], 4, 1, 2), 6)
        }),
        stage("argument-counts", 200, "contract calls with 0..200 arguments", |ctx, i| {
            let menu = every_type();
            let mut sh = plain();
            sh.pay = Pay::Call(ADDR.into(), "c".into(), "f".into(), (0..i as usize).map(|k| menu[k * 4 % menu.len()].clone()).collect());
            sign_case(ctx, &sh, &Spec::one(Hm::P2pkh, 4, 1, 2), 6)
        }),
        stage("big-arguments", wide.len() as u64 * 4, "contract calls whose argument (buffer, string or list) brings the transaction to every length around 2^8, 2^12 and 2^16", move |ctx, i| {
            let mut sh = plain();
            sh.pay = Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![T::Int(1), big_leaf(i % 4, wide[(i / 4) as usize]), T::True]);
            sign_case(ctx, &sh, &Spec::one(SINGLE[(i / 4 % 2) as usize], 4, 1, 2), 6).map_err(|e| short(&e))
        }),
        stage("huge-arguments", huge.len() as u64 * 2 * 2, format!("contract calls with a buffer or list of {huge:?} bytes or items and the same with another last argument"), move |ctx, i| {
            let mut sh = plain();
            sh.pay = Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![big_leaf(i % 2 * 3, huge[(i / 4) as usize]), T::Int(i as i128 / 2 % 2)]);
            sign_case(ctx, &sh, &Spec::one(Hm::P2pkh, 4, 1, 2), 6).map_err(|e| short(&e))
        }),
        stage("unencodable", 4 * 2, "transactions that cannot be encoded cannot be signed", |ctx, i| {
            let mut sh = plain();
            sh.pay = match i / 2 {
                0 => Pay::Transfer(T::Std(ADDR.into()), 1, "x".repeat(35)),
                1 => Pay::Transfer(T::Int(1), 1, "".into()),
                2 => Pay::Call(ADDR.into(), "c".repeat(129), "f".into(), vec![]),
                _ => Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![T::Ascii("é".into())]),
            };
            let (_, tx) = make(ctx, &sh, &Spec::one(SINGLE[(i % 2) as usize], 1, 1, 1), None)?;
            let r = ctx.try_sut("sign", || tx.sign(sk(1)))?;
            ctx.same("signing an unencodable transaction is accepted", &r.is_ok(), &false)
        }),
        stage("types", 256 * 6, "signing-hash primitives for every type byte x 6 hashes", move |ctx, i| {
            primitives(ctx, &pattern(32, i / 256), i as u8, 1, 2, 3)
        }),
        stage("primitive-fees", pair * pair, format!("signing-hash primitives for {pair} x {pair} fees and nonces"), move |ctx, i| {
            let step = na as f64 / pair as f64;
            let at = |k: u64| all2[((k as f64 * step) as usize).min(all2.len() - 1)];
            primitives(ctx, &pattern(32, 2), 4 + (i % 2) as u8, at(i % pair), at(i / pair), (i % 5) as usize)
        }),
        stage("primitive-fee", na * 2, "signing-hash primitives for each fee and nonce near a power of two", move |ctx, i| {
            let v = all3[(i / 2) as usize];
            primitives(ctx, &pattern(32, 5), 4, if i % 2 == 0 { v } else { 3 }, if i % 2 == 0 { 3 } else { v }, 0)
        }),
        stage("hash-bits", 256 * 20, "signing-hash primitives for hashes with each bit set x 20 keys", move |ctx, i| {
            let mut h = vec![0; 32];
            h[(i % 256 / 8) as usize] = 1 << (i % 8);
            primitives(ctx, &h, 5, 0, 0, (i / 256) as usize)
        }),
    ];
    Check {
        id: "C14",
        rule: "one case = one transaction signed with the right and with a wrong key, verified, re-signed; or one application of the signing-hash primitives",
        assumptions: assume(&["secp256k1 crate (RFC 6979 signing, recovery) is correct", "SHA-512/256 is collision free: dependence on every field follows from equality with the model's hash"]),
        stages,
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    SignOrigin(usize),
    AppendOrigin(usize),
    SignSponsor(usize),
    Fee(u64),
    Nonce(u64),
    SponsorFee(u64),
    Oversign(bool),
    Overlap(bool),
}

struct Session {
    tx: Tx,
    hash: Vec<u8>,
    closed: bool,
    oversign: bool,
    overlap: bool,
}

impl Session {
    fn apply(&mut self, op: Op) -> bool {
        match op {
            Op::SignOrigin(k) => {
                if self.overlap && self.closed {
                    return false;
                }
                if self.oversign && self.tx.origin.sigs() >= self.tx.origin.required as usize {
                    return false;
                }
                let (s, h) = sign_step(&self.hash, 4, &self.tx.origin, &sk(k));
                put(&mut self.tx.origin, s);
                self.hash = h;
                true
            }
            Op::AppendOrigin(k) => {
                if self.overlap && self.closed || !self.tx.origin.multi() {
                    return false;
                }
                self.tx.origin.fields.push(Field::Key(pkb(&pk(k))));
                true
            }
            Op::SignSponsor(k) => {
                let Some(sp) = &mut self.tx.sponsor else { return false };
                if self.oversign && sp.sigs() >= sp.required as usize {
                    return false;
                }
                let (s, h) = sign_step(&self.hash, 5, sp, &sk(k));
                put(sp, s);
                self.hash = h;
                self.closed = true;
                true
            }
            Op::Fee(v) => {
                self.tx.origin.fee = v;
                true
            }
            Op::Nonce(v) => {
                self.tx.origin.nonce = v;
                true
            }
            Op::SponsorFee(v) => match &mut self.tx.sponsor {
                Some(s) => {
                    s.fee = v;
                    true
                }
                None => false,
            },
            Op::Oversign(b) => {
                self.oversign = b;
                true
            }
            Op::Overlap(b) => {
                self.overlap = b;
                true
            }
        }
    }
}

fn put(c: &mut Cond, sig: Vec<u8>) {
    if c.multi() {
        c.fields.push(Field::Sig(sig));
    } else {
        c.sig = sig;
    }
}

fn real_op(ctx: &mut Ctx, s: &mut TransactionSigner, op: Op) -> Result<bool, String> {
    Ok(match op {
        Op::SignOrigin(k) => ctx.try_sut("sign_origin", || s.sign_origin(sk(k)))?.is_ok(),
        Op::AppendOrigin(k) => ctx.try_sut("append_origin", || s.append_origin(pk(k)))?.is_ok(),
        Op::SignSponsor(k) => ctx.try_sut("sign_sponsor", || s.sign_sponsor(sk(k)))?.is_ok(),
        Op::Fee(v) => {
            ctx.sut("set_fee", || s.tx.set_fee(v))?;
            true
        }
        Op::Nonce(v) => {
            ctx.sut("set_nonce", || s.tx.set_nonce(v))?;
            true
        }
        Op::SponsorFee(v) => ctx
            .try_sut("sponsor_mut", || s.tx.auth.sponsor_mut().map(|c| c.set_fee(v)))?
            .is_ok(),
        Op::Oversign(b) => {
            s.verify_oversign = b;
            true
        }
        Op::Overlap(b) => {
            s.verify_overlap = b;
            true
        }
    })
}

fn session_same(ctx: &mut Ctx, s: &TransactionSigner, m: &Session) -> Result<(), String> {
    let want = m.tx.enc().ok_or("model: not encodable")?;
    let got = ctx.try_sut("encode", || s.tx.encode())?;
    ctx.same("transaction", &got.as_deref().map(hexs).ok(), &Some(hexs(&want)))?;
    ctx.same("running hash", &hexs(s.hash.as_bytes()), &hexs(&m.hash))?;
    let mut st = want;
    st.extend(&m.hash);
    st.extend([u8::from(m.closed), u8::from(m.oversign), u8::from(m.overlap)]);
    ctx.state(&st);
    Ok(())
}

fn run_ops(ctx: &mut Ctx, s: TransactionSigner, mut m: Session, ops: &[Op]) -> Result<(), String> {
    let mut s = s;
    session_same(ctx, &s, &m).map_err(|e| format!("at the start: {e}"))?;
    for (i, op) in ops.iter().enumerate() {
        let want = m.apply(*op);
        let got = real_op(ctx, &mut s, *op).map_err(|e| format!("{:?}: {e}", &ops[..=i]))?;
        ctx.same(&format!("{:?}: last operation accepted", &ops[..=i]), &got, &want)?;
        session_same(ctx, &s, &m).map_err(|e| format!("{:?}: {e}", &ops[..=i]))?;
    }
    let tx = ctx.sut("transaction", || s.transaction())?;
    tx_views(ctx, &tx, &m.tx).map_err(|e| format!("{ops:?}: {e}"))?;
    let h = m.tx.initial().unwrap();
    let v = verifies(ctx, &tx, &h)?;
    ctx.same(&format!("{ops:?}: result verifies"), &v, &m.tx.verify_at(&h))
}

fn origins() -> Vec<Spec> {
    vec![
        Spec::one(Hm::P2pkh, 0, 10, 1),
        Spec::one(Hm::P2wpkh, 2, 0, u64::MAX),
        Spec::many(Hm::P2sh, &[0, 2], 2, 10, 1),
        Spec::many(Hm::P2wsh, &[0, 2], 2, 10, 1),
        Spec::many(Hm::P2sh, &[0, 2, 3], 2, 10, 1),
        Spec::many(Hm::P2wsh, &[0, 2], 1, 10, 1),
        Spec::many(Hm::P2sh, &[0], 1, 10, 1),
        Spec::many(Hm::P2wsh, &[0, 2, 0], 3, 10, 1),
        Spec::one(Hm::P2pkh, 0, 0, 0),
    ]
}
fn sponsors() -> Vec<Option<Spec>> {
    vec![
        None,
        Some(Spec::one(Hm::P2pkh, 4, 20, 2)),
        Some(Spec::one(Hm::P2wpkh, 4, 20, 2)),
        Some(Spec::many(Hm::P2sh, &[4, 5], 2, 20, 2)),
        Some(Spec::many(Hm::P2wsh, &[4, 5], 1, 20, 2)),
        Some(Spec::one(Hm::P2pkh, 4, 0, 0)),
    ]
}

fn session(ctx: &mut Ctx, o: &Spec, s: Option<&Spec>, ops: &[Op]) -> Result<(), String> {
    let go = |ctx: &mut Ctx| {
        let (m, tx) = make(ctx, &plain(), o, s)?;
        let hash = m.initial().unwrap();
        let signer = ctx.try_sut("TransactionSigner::new", || TransactionSigner::new(tx))?;
        let signer = signer.map_err(|e| format!("TransactionSigner::new: {e}"))?;
        run_ops(ctx, signer, Session { tx: m, hash, closed: false, oversign: true, overlap: true }, ops)
    };
    go(ctx).map_err(|e: String| format!("origin {o:?} sponsor {s:?}: {e}"))
}

fn c15(tier: Tier) -> Check {
    use Op::*;
    let base = [SignOrigin(0), SignOrigin(2), AppendOrigin(2), AppendOrigin(0), SignSponsor(4), SignSponsor(5), Fee(99)];
    let nb = base.len() as u64;
    let depth = tier.pick(4, 6);
    let wn = words(nb, depth);
    let ext = [
        SignOrigin(0),
        SignOrigin(3),
        AppendOrigin(2),
        SignSponsor(4),
        Fee(0),
        Nonce(u64::MAX),
        SponsorFee(7),
        Oversign(false),
        Overlap(false),
        Oversign(true),
        Overlap(true),
    ];
    let ne = ext.len() as u64;
    let edepth = tier.pick(4, 5);
    let en = words(ne, edepth);
    let spn = [SignSponsor(4), SignSponsor(5), SignOrigin(0), AppendOrigin(2), SponsorFee(3), Overlap(false), Fee(8)];
    let sdepth = tier.pick(4, 5);
    let sn = words(spn.len() as u64, sdepth);
    let pre_ops = [SignOrigin(0), SignOrigin(2), SignOrigin(3), AppendOrigin(2), AppendOrigin(0), AppendOrigin(3), Fee(99)];
    let pn = words(7, 3);
    let (no, ns) = (origins().len() as u64, sponsors().len() as u64);
    let ext_o = [0usize, 2, 5];
    let ext_s = [0usize, 1, 3];
    let single_depth = tier.pick(7, 9);
    let narrow = [SignOrigin(0), AppendOrigin(2), SignSponsor(4)];
    let wide = tier.pick(7u64, 10);
    let wide_n: u64 = (1..=wide).map(|n| (n + 2) << n).sum();
    let stages = vec![
        stage(
            "sessions",
            wn * no * ns,
            format!("every sequence of <= {depth} of 7 operations x {no} origins x {ns} sponsors"),
            move |ctx, i| {
                let (o, s) = (&origins()[(i % no) as usize], &sponsors()[(i / no % ns) as usize]);
                let ops = nth_word(&base, i / no / ns);
                ctx.sample(|| format!("{o:?} / {s:?}: {ops:?}"));
                session(ctx, o, s.as_ref(), &ops)
            },
        ),
        stage(
            "sessions-long",
            words(3, single_depth) * no * ns,
            format!("every sequence of <= {single_depth} of sign origin, append key, sign sponsor x {no} origins x {ns} sponsors"),
            move |ctx, i| {
                let (o, s) = (&origins()[(i % no) as usize], &sponsors()[(i / no % ns) as usize]);
                session(ctx, o, s.as_ref(), &nth_word(&narrow, i / no / ns))
            },
        ),
        stage(
            "sessions-flags",
            en * 9,
            format!("every sequence of <= {edepth} of 11 operations, among them fee, nonce and check switches, x 3 origins x 3 sponsors"),
            move |ctx, i| {
                let (o, s) = (&origins()[ext_o[(i % 3) as usize]], &sponsors()[ext_s[(i / 3 % 3) as usize]]);
                session(ctx, o, s.as_ref(), &nth_word(&ext, i / 9))
            },
        ),
        stage(
            "sponsor-entry",
            pn * no * ns,
            "sponsor sessions opened after every sequence of <= 3 origin operations, on standard and sponsored transactions",
            move |ctx, i| {
                let (o, s) = (&origins()[(i % no) as usize], &sponsors()[(i / no % ns) as usize]);
                let ops = nth_word(&pre_ops, i / no / ns);
                open_sponsor(ctx, o, s.as_ref(), &ops, &[]).map_err(|e| format!("origin {o:?} sponsor {s:?} {ops:?}: {e}"))
            },
        ),
        stage(
            "sponsor-sessions",
            sn * no * (ns - 1),
            format!("sponsor sessions on completely signed origins: every sequence of <= {sdepth} of 7 operations"),
            move |ctx, i| {
                let (o, s) = (&origins()[(i % no) as usize], &sponsors()[1 + (i / no % (ns - 1)) as usize]);
                let ops = nth_word(&spn, i / no / (ns - 1));
                let mut first: Vec<Op> = (0..o.required as usize).map(|k| SignOrigin(o.keys[k])).collect();
                first.extend((o.required as usize..o.keys.len()).map(|k| AppendOrigin(o.keys[k])));
                if !o.is_multi() {
                    first.truncate(1);
                }
                open_sponsor(ctx, o, s.as_ref(), &first, &ops).map_err(|e| format!("origin {o:?} sponsor {s:?} then {ops:?}: {e}"))
            },
        ),
        stage(
            "wide-sessions",
            wide_n * 4,
            format!("m-of-n conditions for all m <= n + 1, n <= {wide}: every choice of signing or appending at each of the n positions, then one signature too many, as origin and as sponsor, 2 hash modes"),
            move |ctx, i| {
                let hm = MULTI[(i % 2) as usize];
                let as_sponsor = i / 2 % 2 == 1;
                let mut i = i / 4;
                let mut n = 1u64;
                while i >= (n + 2) << n {
                    i -= (n + 2) << n;
                    n += 1;
                }
                let (m, set) = (i % (n + 2), i / (n + 2));
                let c = Spec::many(hm, &(0..n as usize).collect::<Vec<_>>(), m as u8, 3, 9);
                if as_sponsor {
                    let o = Spec::one(Hm::P2wpkh, 15, 1, 2);
                    // only signing is offered for sponsors
                    let mut ops: Vec<Op> = (0..n as usize).map(|k| if set >> k & 1 == 1 { SignSponsor(k) } else { SponsorFee(k as u64) }).collect();
                    ops.push(SignSponsor(0));
                    return open_sponsor(ctx, &o, Some(&c), &[SignOrigin(15)], &ops).map_err(|e| format!("sponsor {m} of {n}, {set:#b}: {e}"));
                }
                let mut ops: Vec<Op> = (0..n as usize).map(|k| if set >> k & 1 == 1 { SignOrigin(k) } else { AppendOrigin(k) }).collect();
                ops.push(SignOrigin(0));
                session(ctx, &c, None, &ops)
            },
        ),
        stage("large-sessions", 17 * 16 * 2 * 3, "m-of-n origins for all m, n <= 16: first m sign, last m sign, everyone tries to sign; then a sponsor signs", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let (m, n, hm, way) = (d(17), 1 + d(16), MULTI[d(2)], d(3));
            let c = Spec::many(hm, &(0..n).collect::<Vec<_>>(), m as u8, 3, 9);
            let ops: Vec<Op> = (0..n)
                .map(|k| {
                    if way == 2 || way == 0 && k < m || way == 1 && k + m >= n {
                        SignOrigin(k)
                    } else {
                        AppendOrigin(k)
                    }
                })
                .collect();
            let s = Spec::one(Hm::P2pkh, 17, 5, 6);
            open_sponsor(ctx, &c, Some(&s), &ops, &[SignSponsor(17), SignOrigin(0), SignSponsor(17)]).map_err(|e| format!("{m} of {n}, way {way}: {e}"))?;
            let mut all = ops;
            all.extend([SignSponsor(17), SignOrigin(0), AppendOrigin(0), SignSponsor(17)]);
            session(ctx, &c, Some(&s), &all)
        }),
        stage("larger-sessions", 10 * 5 * 2 * 2 * 2, "m-of-n conditions with 17..175 keys: first m or all sign, the others are appended, then more signatures and keys, as origin and as sponsor", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let n = [17usize, 18, 20, 21, 31, 32, 33, 64, 128, 175][d(10)];
            let m = [1, 2, 16, 17, n][d(5)];
            let c = Spec::many(MULTI[d(2)], &(0..n).map(|k| k * 7 % 20).collect::<Vec<_>>(), m as u8, 3, 9);
            let everyone = d(2) == 1;
            if d(2) == 1 {
                let o = Spec::one(Hm::P2wpkh, 15, 1, 2);
                let mut ops: Vec<Op> = (0..if everyone { n } else { m }).map(|k| SignSponsor(c.keys[k])).collect();
                ops.extend([SignSponsor(0), SponsorFee(9), SignSponsor(1)]);
                return open_sponsor(ctx, &o, Some(&c), &[SignOrigin(15)], &ops).map_err(|e| format!("sponsor {m} of {n}: {}", short(&e)));
            }
            let mut ops: Vec<Op> = (0..n).map(|k| if everyone || k < m { SignOrigin(c.keys[k]) } else { AppendOrigin(c.keys[k]) }).collect();
            ops.extend([SignOrigin(0), AppendOrigin(0), SignOrigin(1)]);
            // beyond 175 fields the signer script would not be defined
            ops.truncate(175);
            session(ctx, &c, None, &ops).map_err(|e| format!("{m} of {n}: {}", short(&e)))
        }),
        stage("modifications", 8 * 4 * 3, "every kind of modification of every kind of condition, after 0..2 others", move |ctx, i| {
            let o = &origins()[(i % 8) as usize];
            let kind = i / 8 % 4;
            let before = i / 32;
            let mut m = o.model();
            let mut c = ctx.sut("create", || o.real())?;
            let sig = pattern(65, 2);
            for round in 0..=before {
                let want = o.is_multi() == (kind >= 2) && kind != 0;
                let cmd = match kind {
                    0 => Modification::SetPublicKey(pk(7)),
                    1 => Modification::SetSignature(MessageSignature::new(&sig)),
                    2 => Modification::AddPublicKey(pk(7)),
                    _ => Modification::AddSignature(MessageSignature::new(&sig)),
                };
                let got = ctx.try_sut("modify", || c.modify(cmd))?;
                ctx.same("modification accepted", &got.is_ok(), &want).map_err(|e| format!("{o:?} {cmd:?}: {e}"))?;
                if want {
                    match kind {
                        2 => m.fields.push(Field::Key(pkb(&pk(7)))),
                        _ => put(&mut m, sig.clone()),
                    }
                }
                ctx.state(&m.enc());
                let enc = ctx.try_sut("encode", || c.encode())?;
                ctx.same("condition", &enc.ok().as_deref().map(hexs), &Some(hexs(&m.enc()))).map_err(|e| format!("{o:?} {kind} x{round}: {e}"))?;
                let n = ctx.sut("getters", || (c.signatures(), c.req_signatures(), c.fee(), c.nonce(), c.mode() as u8))?;
                let w = (m.sigs() as u16, u16::from(m.required), m.fee, m.nonce, m.mode as u8);
                ctx.same("signatures, required, fee, nonce, mode", &n, &w)?;
            }
            let mut r = c.clone();
            ctx.sut("reset", || r.reset())?;
            let enc = ctx.try_sut("encode", || r.encode())?;
            ctx.same("reset condition", &enc.ok().as_deref().map(hexs), &Some(hexs(&m.cleared().enc())))?;
            let enc = ctx.try_sut("encode", || c.encode())?;
            ctx.same("condition after its clone was reset", &enc.ok().as_deref().map(hexs), &Some(hexs(&m.enc())))
        }),
        stage("auth", no * ns * ns, "standard and sponsored authorizations: kind, origin and sponsor access, replacing the sponsor, reset", move |ctx, i| {
            let (o, s) = (&origins()[(i % no) as usize], &sponsors()[(i / no % ns) as usize]);
            let other = sponsors()[(i / no / ns) as usize].clone().unwrap_or(Spec::one(Hm::P2pkh, 9, 1, 1));
            let (mut m, tx) = make(ctx, &plain(), o, s.as_ref())?;
            let mut auth = tx.auth.clone();
            let k = ctx.sut("kind", || (auth.is_standard(), auth.is_sponsored()))?;
            ctx.same("standard, sponsored", &k, &(s.is_none(), s.is_some()))?;
            let e = ctx.try_sut("origin", || auth.origin().encode())?;
            ctx.same("origin", &e.ok(), &Some(m.origin.enc()))?;
            let e = ctx.sut("sponsor", || auth.sponsor().ok().map(|c| c.encode().ok()))?;
            ctx.same("sponsor", &e, &m.sponsor.as_ref().map(|c| Some(c.enc())))?;
            let r = ctx.try_sut("set_sponsor", || auth.set_sponsor(other.real()))?;
            ctx.same("set_sponsor accepted", &r.is_ok(), &s.is_some())?;
            if s.is_some() {
                m.sponsor = Some(other.model());
            }
            let e = ctx.try_sut("encode", || auth.encode())?;
            let want = |m: &Tx| {
                let mut w = vec![if m.sponsor.is_some() { 5 } else { 4 }];
                w.extend(m.origin.enc());
                if let Some(s) = &m.sponsor {
                    w.extend(s.enc());
                }
                w
            };
            ctx.same("authorization", &e.ok(), &Some(want(&m)))?;
            let r = ctx.sut("reset", || auth.clone().reset())?;
            m.origin = m.origin.cleared();
            m.sponsor = m.sponsor.map(|_| empty_sponsor());
            let e = ctx.try_sut("encode", || r.encode())?;
            ctx.same("reset authorization", &e.ok(), &Some(want(&m)))
        }),
    ];
    Check {
        id: "C15",
        rule: "one case = one operation sequence on one signing session; after every operation acceptance, transaction bytes and running hash are compared with the session model, at the end the verification result",
        assumptions: assume(&[
            "resuming a partly signed multi-key origin in a second session is not judged",
            "with a check switched off by its public field the corresponding refusal does not apply",
        ]),
        stages,
        isolated: vec![],
    }
}

/// First session: `first` on the origin; then a sponsor session with `then`.
fn open_sponsor(ctx: &mut Ctx, o: &Spec, s: Option<&Spec>, first: &[Op], then: &[Op]) -> Result<(), String> {
    let placeholder = Spec::one(Hm::P2pkh, 11, 0, 0);
    let (m, tx) = make(ctx, &plain(), o, s.map(|_| &placeholder))?;
    let hash = m.initial().unwrap();
    let mut sess = Session { tx: m, hash, closed: false, oversign: true, overlap: true };
    let signer = ctx.try_sut("TransactionSigner::new", || TransactionSigner::new(tx))?;
    let mut signer = signer.map_err(|e| format!("TransactionSigner::new: {e}"))?;
    for op in first {
        let want = sess.apply(*op);
        let got = real_op(ctx, &mut signer, *op)?;
        ctx.same("operation accepted", &got, &want)?;
    }
    let tx = ctx.sut("transaction", || signer.transaction())?;
    let mut m = sess.tx;
    let before = m.enc();
    let sp = s.cloned().unwrap_or(Spec::one(Hm::P2pkh, 4, 20, 2));
    let got = ctx.try_sut("new_sponser", || TransactionSigner::new_sponser(&tx, sp.real()))?;
    let enc = ctx.try_sut("encode", || tx.encode())?;
    ctx.same("transaction given to the sponsor", &enc.ok(), &before)?;
    let h = m.initial().unwrap();
    let next = if s.is_some() { m.origin.verify(&h, 4) } else { None };
    ctx.same("sponsor session opens", &got.is_ok(), &next.is_some())?;
    let (Ok(signer), Some(next)) = (got, next) else { return Ok(()) };
    m.sponsor = Some(sp.model());
    run_ops(ctx, signer, Session { tx: m, hash: next, closed: true, oversign: true, overlap: true }, then)
}

// ------------------------------------------------------------------ C16

/// Gives the condition the model's signature or fields.
fn load(ctx: &mut Ctx, c: &mut dyn SpendingCondition, m: &Cond) -> Result<(), String> {
    let r = ctx.try_sut("modify", || -> Result<(), Error> {
        if m.multi() {
            for f in &m.fields {
                match f {
                    Field::Key(k) => c.modify(Modification::AddPublicKey(PublicKey::from_slice(k).unwrap()))?,
                    Field::Sig(s) => c.modify(Modification::AddSignature(MessageSignature::new(s)))?,
                }
            }
        } else {
            c.modify(Modification::SetSignature(MessageSignature::new(&m.sig)))?;
        }
        c.set_fee(m.fee);
        c.set_nonce(m.nonce);
        Ok(())
    })?;
    r.map_err(|e| format!("modify: {e}"))
}

/// Implementation transaction carrying exactly the model's conditions.
fn realise(ctx: &mut Ctx, m: &Tx, o: &Spec, s: Option<&Spec>) -> Result<Transaction, String> {
    let mut tx = ctx.sut("create transaction", || build_tx(m, o.real(), s.map(Spec::real)))?;
    load(ctx, tx.auth.origin_mut(), &m.origin)?;
    if let Some(sp) = &m.sponsor {
        load(ctx, tx.auth.sponsor_mut().map_err(|e| format!("{e}"))?, sp)?;
    }
    let e = ctx.try_sut("encode", || tx.encode())?;
    ctx.same("transaction", &e.ok().as_deref().map(hexs), &m.enc().as_deref().map(hexs))?;
    Ok(tx)
}

/// Verdicts of model and implementation on a transaction, against its own signing hash.
fn judge(ctx: &mut Ctx, m: &Tx, o: &Spec, s: Option<&Spec>) -> Result<bool, String> {
    let tx = realise(ctx, m, o, s)?;
    let h = initial_of(ctx, &tx)?;
    let want_h = m.initial().unwrap();
    ctx.same("signing hash", &hexs(&h), &hexs(&want_h))?;
    ctx.state(&m.enc().unwrap());
    let want = m.verify_at(&want_h);
    let got = verifies(ctx, &tx, &h)?;
    ctx.same("authorization verifies", &got, &want)?;
    let want_o = m.origin.verify(&want_h, 4);
    let got_o = ctx.try_sut("verify_origin", || tx.auth.verify_origin(sighash(&h)))?;
    ctx.same("verify_origin", &got_o.ok().map(|h| hexs(h.as_bytes())), &want_o.as_deref().map(hexs))?;
    Ok(want)
}

/// Signs a model condition with the first `required` keys and appends the others.
fn complete(c: &mut Cond, o: &Spec, h: &[u8], typ: u8) -> Vec<u8> {
    let mut h = h.to_vec();
    if !o.is_multi() {
        let (s, n) = sign_step(&h, typ, c, &sk(o.keys[0]));
        c.sig = s;
        return n;
    }
    for (i, k) in o.keys.iter().enumerate() {
        if i < o.required as usize {
            let (s, n) = sign_step(&h, typ, c, &sk(*k));
            c.fields.push(Field::Sig(s));
            h = n;
        } else {
            c.fields.push(Field::Key(pkb(&pk(*k))));
        }
    }
    h
}

fn signed(shape: &Tx, o: &Spec, s: Option<&Spec>) -> Tx {
    let mut m = shape.clone();
    m.origin = o.model();
    m.sponsor = s.map(Spec::model);
    let h = m.initial().unwrap();
    let mut origin = m.origin.clone();
    let n = complete(&mut origin, o, &h, 4);
    m.origin = origin;
    if let (Some(sp), Some(spec)) = (&mut m.sponsor, s) {
        complete(sp, spec, &n, 5);
    }
    m
}

const NDEF: u64 = 9;

/// `c` as origin (role 0), origin of a sponsored transaction (1) or sponsor (2), signed with one defect.
fn defect_case(ctx: &mut Ctx, sh: &Tx, c: Spec, role: usize, defect: usize) -> Result<(), String> {
    let other = Spec::one(Hm::P2pkh, 15, c.fee, c.nonce);
    let (o, s) = match role {
        0 => (c, None),
        1 => (c, Some(other)),
        _ => (other, Some(c)),
    };
    let mut m = sh.clone();
    m.origin = o.model();
    m.sponsor = s.as_ref().map(Spec::model);
    let h0 = m.initial().unwrap();
    let mut h = h0.clone();
    let mut parts = vec![(o.clone(), 4u8, role != 2)];
    if let Some(s) = &s {
        parts.push((s.clone(), 5, role == 2));
    }
    for (spec, typ, target) in parts {
        let mut cond = spec.model();
        let last = spec.keys.len() - 1;
        for (i, k) in spec.keys.iter().enumerate() {
            let bad = target && i == last;
            let (fee, nonce) = (cond.fee, cond.nonce);
            let sig = match defect {
                // nothing in place of the last signature
                1 if bad => vec![0; 65],
                // by a foreign key
                2 if bad => sign65(&presign(&h, typ, fee, nonce), &sk(9)),
                // for the other authorization type
                3 if bad => sign65(&presign(&h, 9 - typ, fee, nonce), &sk(*k)),
                // not over the running hash but over the first one
                4 if bad => sign65(&presign(&h0, typ, fee, nonce), &sk(*k)),
                // over another fee or nonce
                5 if bad => sign65(&presign(&h, typ, fee.wrapping_add(1), nonce), &sk(*k)),
                6 if bad => sign65(&presign(&h, typ, fee, nonce.wrapping_sub(1)), &sk(*k)),
                // over the hash itself
                7 if bad => sign65(&h, &sk(*k)),
                // fee and nonce exchanged
                8 if bad => sign65(&presign(&h, typ, nonce, fee), &sk(*k)),
                _ => sign65(&presign(&h, typ, fee, nonce), &sk(*k)),
            };
            h = postsign(&presign(&h, typ, fee, nonce), &sig);
            put(&mut cond, sig);
        }
        if typ == 4 {
            m.origin = cond;
        } else {
            m.sponsor = Some(cond);
        }
    }
    let v = judge(ctx, &m, &o, s.as_ref()).map_err(|e| format!("{o:?} / {s:?}, role {role}, defect {defect}: {e}"))?;
    assert!(defect != 0 || v);
    Ok(())
}

fn c16(tier: Tier) -> Check {
    let (no, ns) = (origins().len() as u64, sponsors().len() as u64);
    let all_single = tier.pick(6u64, 20);
    let wide16 = reaching(tier, 170);
    let near16 = near();
    let nn = near16.len() as u64;
    let field_len = tier.pick(3, 4);
    let nfield = words(8, field_len);
    let stages = vec![
        stage("complete", no * ns * 4 * 4, "completely signed transactions of 9 origins x 6 sponsors x 4 payloads x 4 condition sets verify", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let (o, s) = (origins()[d(no)].clone(), sponsors()[d(ns)].clone());
            let sh = shape(Net::Main, 1, 2, d(4), d(4));
            let m = signed(&sh, &o, s.as_ref());
            ctx.sample(|| format!("{o:?} / {s:?}"));
            let v = judge(ctx, &m, &o, s.as_ref()).map_err(|e| format!("{o:?} / {s:?}: {e}"))?;
            assert!(v, "model accepts complete signatures");
            Ok(())
        }),
        stage("set-sizes", no * ns * 35, "0..30, 64, 128, 255, 256 and 300 post-conditions of every kind: complete signatures verify, and not for the set without its last condition", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let (o, s) = (origins()[d(no)].clone(), sponsors()[d(ns)].clone());
            let n = d(35);
            let n = if n < 30 { n } else { [64, 128, 255, 256, 300][n - 30] };
            let mut sh = shape(Net::Main, 1, 1 + (n % 2) as u8, n % 4, 0);
            sh.pcs = pc_many(n);
            let mut m = signed(&sh, &o, s.as_ref());
            let v = judge(ctx, &m, &o, s.as_ref()).map_err(|e| format!("{o:?} / {s:?}, {n} conditions: {e}"))?;
            assert!(v, "model accepts complete signatures");
            if n > 0 {
                m.pcs.pop();
                let v = judge(ctx, &m, &o, s.as_ref()).map_err(|e| format!("{o:?} / {s:?}, one of {n} conditions dropped: {e}"))?;
                assert!(!v, "model refuses changed conditions");
            }
            Ok(())
        }),
        stage("m-of-n", 16 * 16 * 2 * 3, "m-of-n origins for all m <= n <= 16, 2 hash modes: complete, one signature replaced by its key, one key missing", |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let (m, n) = (1 + d(16), 1 + d(16));
            if m > n {
                return Ok(());
            }
            let o = Spec::many(MULTI[d(2)], &(0..n).collect::<Vec<_>>(), m as u8, 4, 5);
            let mut t = signed(&plain(), &o, None);
            match d(3) {
                0 => {}
                1 => t.origin.fields[m - 1] = Field::Key(pkb(&pk(m - 1))),
                _ => {
                    t.origin.fields.pop();
                }
            }
            judge(ctx, &t, &o, None).map(|_| ()).map_err(|e| format!("{m} of {n}: {e}"))
        }),
        stage(
            "subsets",
            (1 << 6) * 9 * 2,
            "every subset of 6 keys signing (others appended as keys), required counts 0..=7 and 175, 2 hash modes",
            |ctx, i| {
                let set = i % 64;
                let r = [0, 1, 2, 3, 4, 5, 6, 7, 175][(i / 64 % 9) as usize];
                let o = Spec::many(MULTI[(i / 576) as usize], &[0, 1, 2, 3, 4, 5], r, 4, 5);
                let mut m = plain();
                m.origin = o.model();
                let mut h = m.initial().unwrap();
                for k in 0..6 {
                    if set >> k & 1 == 1 {
                        let (s, n) = sign_step(&h, 4, &m.origin, &sk(k));
                        m.origin.fields.push(Field::Sig(s));
                        h = n;
                    } else {
                        m.origin.fields.push(Field::Key(pkb(&pk(k))));
                    }
                }
                judge(ctx, &m, &o, None).map(|_| ()).map_err(|e| format!("signers {set:#b} of 6, {r} required: {e}"))
            },
        ),
        stage(
            "fields",
            nfield * 6 * 2,
            format!("every sequence of <= {field_len} of 8 fields (keys, chained signatures, signatures of a wrong type, unchained, garbage) for m-of-n with n <= 3, 2 hash modes"),
            move |ctx, i| {
                const MN: [(u8, usize); 6] = [(1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3)];
                let (r, n) = MN[(i / 2 % 6) as usize];
                let o = Spec::many(MULTI[(i % 2) as usize], &[0, 2, 3][..n], r, 4, 5);
                let w = nth_word(&[0u8, 1, 2, 3, 4, 5, 6, 7], i / 12);
                let mut m = plain();
                m.origin = o.model();
                let h0 = m.initial().unwrap();
                let mut h = h0.clone();
                for f in &w {
                    let key = [0, 2, 3][*f as usize % 3];
                    match f {
                        0..=2 => m.origin.fields.push(Field::Key(pkb(&pk(key)))),
                        3..=5 => {
                            let (s, n) = sign_step(&h, 4, &m.origin, &sk(key));
                            m.origin.fields.push(Field::Sig(s));
                            h = n;
                        }
                        6 => {
                            // right key, wrong authorization type
                            let (s, n) = sign_step(&h, 5, &m.origin, &sk(0));
                            m.origin.fields.push(Field::Sig(s));
                            h = n;
                        }
                        _ => {
                            // always over the first hash
                            let (s, _) = sign_step(&h0, 4, &m.origin, &sk(2));
                            m.origin.fields.push(Field::Sig(s.clone()));
                            h = postsign(&presign(&h, 4, m.origin.fee, m.origin.nonce), &s);
                        }
                    }
                }
                judge(ctx, &m, &o, None).map(|_| ()).map_err(|e| format!("{r} of {n}, fields {w:?}: {e}"))
            },
        ),
        stage("sponsor-fields", words(5, 3) * 4, "every sequence of <= 3 of 5 fields in a multi-key sponsor of a signed origin", |ctx, i| {
            let o = Spec::one(Hm::P2pkh, 1, 4, 5);
            let r = 1 + (i % 2) as u8;
            let sp = Spec::many(MULTI[(i / 2 % 2) as usize], &[0, 2], r, 6, 7);
            let w = nth_word(&[0u8, 1, 2, 3, 4], i / 4);
            let mut m = signed(&plain(), &o, Some(&sp));
            let mut s = sp.model();
            let mut h = m.origin.verify(&m.initial().unwrap(), 4).unwrap();
            for f in &w {
                let key = [0, 2][*f as usize % 2];
                match f {
                    0 | 1 => s.fields.push(Field::Key(pkb(&pk(key)))),
                    2 | 3 => {
                        let (g, n) = sign_step(&h, 5, &s, &sk(key));
                        s.fields.push(Field::Sig(g));
                        h = n;
                    }
                    _ => {
                        let (g, n) = sign_step(&h, 4, &s, &sk(0));
                        s.fields.push(Field::Sig(g));
                        h = n;
                    }
                }
            }
            m.sponsor = Some(s);
            judge(ctx, &m, &o, Some(&sp)).map(|_| ()).map_err(|e| format!("{r} of 2, sponsor fields {w:?}: {e}"))
        }),
        stage("signature-bits", no * ns * 520 * 4, "every bit of every signature of completely signed transactions flipped", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let (o, s) = (origins()[d(no)].clone(), sponsors()[d(ns)].clone());
            let mut m = signed(&plain(), &o, s.as_ref());
            let bit = d(520);
            let which = d(4);
            let Some(t) = nth_sig(&mut m, which) else { return Ok(()) };
            t[bit / 8] ^= 1 << (bit % 8);
            judge(ctx, &m, &o, s.as_ref()).map(|_| ()).map_err(|e| format!("{o:?} / {s:?}: bit {bit} of signature {which}: {e}"))
        }),
        stage("signature-bytes", 65 * 256 * 4, "every byte of a signature set to every value: single origin, multi origin, single sponsor, multi sponsor", |ctx, i| {
            let kind = i / (65 * 256);
            let (o, s) = match kind {
                0 => (origins()[0].clone(), None),
                1 => (origins()[2].clone(), None),
                2 => (origins()[1].clone(), sponsors()[1].clone()),
                _ => (origins()[0].clone(), sponsors()[3].clone()),
            };
            let mut m = signed(&plain(), &o, s.as_ref());
            let which = match kind {
                0 => 0,
                1 => 1,
                _ => 1,
            };
            let t = nth_sig(&mut m, which).unwrap();
            t[(i / 256 % 65) as usize] = i as u8;
            judge(ctx, &m, &o, s.as_ref()).map(|_| ()).map_err(|e| format!("{o:?} / {s:?}: {e}"))
        }),
        stage("foreign-keys", all_single * all_single * 2 * 2, "single conditions signed by every other key, as origin and as sponsor", move |ctx, i| {
            let (a, b) = ((i % all_single) as usize, (i / all_single % all_single) as usize);
            let k = i / all_single / all_single;
            let me = Spec::one(SINGLE[(k % 2) as usize], a, 3, 4);
            let (o, s) = if k / 2 == 0 { (me, None) } else { (Spec::one(Hm::P2pkh, 15, 1, 1), Some(me)) };
            let mut m = signed(&plain(), &o, s.as_ref());
            let h = m.initial().unwrap();
            match &mut m.sponsor {
                None => m.origin.sig = sign_step(&h, 4, &m.origin, &sk(b)).0,
                Some(sp) => {
                    let n = m.origin.verify(&h, 4).unwrap();
                    sp.sig = sign_step(&n, 5, sp, &sk(b)).0;
                }
            }
            let v = judge(ctx, &m, &o, s.as_ref()).map_err(|e| format!("{a} signed by {b}: {e}"))?;
            assert_eq!(v, a == b);
            Ok(())
        }),
        stage("near-keys", nn * 2, "conditions of one key signed by another whose signer hash agrees in any four adjacent bytes (or the first or last six), as origin and as sponsor", move |ctx, i| {
            let (hm, a, b) = near16[(i % nn) as usize];
            let spec = |k: usize| Spec { hm, keys: vec![k], required: 1, fee: 3, nonce: 4 };
            let first = Spec::one(Hm::P2pkh, 15, 1, 1);
            let (me, other) = if i / nn == 0 { ((spec(a), None), (spec(b), None)) } else { ((first.clone(), Some(spec(a))), (first, Some(spec(b)))) };
            // what the other key signs is the same: keys do not enter the chain of hashes before their signature
            let mut m = signed(&plain(), &me.0, me.1.as_ref());
            let v = judge(ctx, &m, &me.0, me.1.as_ref()).map_err(|e| format!("{me:?}: {e}"))?;
            assert!(v);
            let h = m.initial().unwrap();
            let (c, h, typ) = match &mut m.sponsor {
                None => (&mut m.origin, h, 4),
                Some(sp) => (sp, m.origin.verify(&h, 4).unwrap(), 5),
            };
            let sig = sign_step(&h, typ, c, &sk(b)).0;
            if SINGLE.contains(&hm) {
                c.sig = sig;
            } else {
                c.fields = vec![Field::Sig(sig)];
            }
            let v = judge(ctx, &m, &me.0, me.1.as_ref()).map_err(|e| format!("{me:?} signed by {other:?}: {e}"))?;
            assert!(!v);
            Ok(())
        }),
        stage("tampering", no * ns * 30, "each transaction field, fee and nonce changed after signing, signatures dropped, swapped, repeated or moved", move |ctx, i| {
            let (o, s) = (origins()[(i % no) as usize].clone(), sponsors()[(i / no % ns) as usize].clone());
            let mut m = signed(&shape(Net::Test, 3, 1, 0, 1), &o, s.as_ref());
            let k = i / no / ns;
            if !tamper(&mut m, k) {
                return Ok(());
            }
            judge(ctx, &m, &o, s.as_ref()).map(|_| ()).map_err(|e| format!("{o:?} / {s:?}: change {k}: {e}"))
        }),
        stage("permutations", 24 * 2 * 2 * 2, "the four signatures of a 4-of-4 (and the fields of a 2-of-4) condition in every order", |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let mut p = d(24);
            let hm = MULTI[d(2)];
            let r = [4, 2][d(2)];
            let as_sponsor = d(2) == 1;
            let c = Spec::many(hm, &[0, 1, 2, 3], r, 1, 2);
            let (o, s) = if as_sponsor { (Spec::one(Hm::P2wpkh, 8, 1, 2), Some(c)) } else { (c, None) };
            let mut m = signed(&plain(), &o, s.as_ref());
            let f = if as_sponsor { &mut m.sponsor.as_mut().unwrap().fields } else { &mut m.origin.fields };
            let mut pool = f.clone();
            f.clear();
            for k in (1..=4).rev() {
                f.push(pool.remove(p % k));
                p /= k;
            }
            judge(ctx, &m, &o, s.as_ref()).map(|_| ()).map_err(|e| format!("{hm:?} {r} of 4: {e}"))
        }),
        stage("defects", 2 * 2 * 6 * 6 * NDEF * 3, "6 x 6 fees and nonces x single/multi x 2 hash modes x role (origin, sponsored origin, sponsor) x signature defects", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            const V: [u64; 6] = [0, 1, 20, 256, 1 << 32, u64::MAX];
            let (hm, multi, fee, nonce, defect, role) = (d(2), d(2), V[d(6)], V[d(6)], d(NDEF), d(3));
            let c = if multi == 1 { Spec::many(MULTI[hm], &[0, 2], 2, fee, nonce) } else { Spec::one(SINGLE[hm], 0, fee, nonce) };
            defect_case(ctx, &plain(), c, role, defect)
        }),
        stage("defect-shapes", 3 * 3 * 2 * 4 * 4 * 4 * NDEF, "every network x anchor mode x post-condition mode x 4 payloads x 4 condition sets x 4 roles x signature defects", move |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let sh = shape(NETS[d(3)], 1 + d(3) as u8, 1 + d(2) as u8, d(4), d(4));
            let (k, defect) = (d(4), d(NDEF));
            let c = if k % 2 == 1 { Spec::many(Hm::P2sh, &[0, 2], 2, 3, 4) } else { Spec::one(Hm::P2pkh, 0, 3, 4) };
            defect_case(ctx, &sh, c, k / 2 * 2, defect)
        }),
        stage("repeated-keys", (2 * 2 + 4 * 2 * 4 + 8 * 3 * 8 + 16 * 4 * 16) * 2, "conditions over every key list of length <= 4 from 2 keys, every required count, every set of signers, 2 hash modes", |ctx, i| {
            let hm = MULTI[(i % 2) as usize];
            let mut i = i / 2;
            let mut n = 1;
            while i >= (1 << n) * n * (1 << n) {
                i -= (1 << n) * n * (1 << n);
                n += 1;
            }
            let ks: Vec<usize> = (0..n).map(|b| if i >> b & 1 == 1 { 2 } else { 0 }).collect();
            let i = i >> n;
            let r = 1 + (i % n) as u8;
            let set = i / n;
            let o = Spec::many(hm, &ks, r, 4, 5);
            let mut m = plain();
            m.origin = o.model();
            let mut h = m.initial().unwrap();
            for (b, k) in ks.iter().enumerate() {
                if set >> b & 1 == 1 {
                    let (s, n) = sign_step(&h, 4, &m.origin, &sk(*k));
                    m.origin.fields.push(Field::Sig(s));
                    h = n;
                } else {
                    m.origin.fields.push(Field::Key(pkb(&pk(*k))));
                }
            }
            let v = judge(ctx, &m, &o, None).map_err(|e| format!("keys {ks:?}, {r} required, signers {set:#b}: {e}"))?;
            assert_eq!(v, set.count_ones() >= r as u32);
            Ok(())
        }),
        stage("large", 7 * 4 * 2 * 2, "m-of-n conditions with 17..175 keys, complete and one signature short, 2 hash modes", |ctx, mut i| {
            let mut d = |n: u64| {
                let r = i % n;
                i /= n;
                r as usize
            };
            let n = [17usize, 20, 32, 64, 100, 128, 175][d(7)];
            let r = [1, 2, n / 2, n][d(4)];
            let o = Spec::many(MULTI[d(2)], &(0..n).map(|k| k * 7 % 20).collect::<Vec<_>>(), r as u8, 4, 5);
            let mut m = signed(&plain(), &o, None);
            if d(2) == 1 {
                m.origin.fields[r - 1] = Field::Key(pkb(&pk(o.keys[r - 1])));
            }
            judge(ctx, &m, &o, None).map(|_| ()).map_err(|e| format!("{r} of {n}: {e}"))
        }),
        stage("big-arguments", wide16.len() as u64 * 4, "completely signed contract calls whose argument (buffer, string or list) brings the transaction to every length around 2^8, 2^12 and 2^16, verified whole and with another last argument", move |ctx, i| {
            let mut sh = plain();
            let args = |last| vec![big_leaf(i % 4, wide16[(i / 4) as usize]), last];
            sh.pay = Pay::Call(ADDR.into(), "c".into(), "f".into(), args(T::True));
            let k = i / 4 % 3;
            let o = if k == 1 { Spec::many(Hm::P2wsh, &[0, 2], 2, 3, 4) } else { Spec::one(Hm::P2pkh, 0, 3, 4) };
            let s = (k == 2).then(|| Spec::one(Hm::P2pkh, 1, 3, 4));
            let mut m = signed(&sh, &o, s.as_ref());
            let v = judge(ctx, &m, &o, s.as_ref()).map_err(|e| short(&e))?;
            assert!(v);
            m.pay = Pay::Call(ADDR.into(), "c".into(), "f".into(), args(T::False));
            let v = judge(ctx, &m, &o, s.as_ref()).map_err(|e| short(&e))?;
            assert!(!v);
            Ok(())
        }),
        stage("hash-bits", no * ns * 257, "completely signed transactions against their signing hash with no or any one bit flipped", move |ctx, i| {
            let (o, s) = (origins()[(i % no) as usize].clone(), sponsors()[(i / no % ns) as usize].clone());
            let m = signed(&plain(), &o, s.as_ref());
            let bit = (i / no / ns) as usize;
            let mut h = m.initial().unwrap();
            if bit < 256 {
                h[bit / 8] ^= 1 << (bit % 8);
            }
            let tx = realise(ctx, &m, &o, s.as_ref())?;
            let got = verifies(ctx, &tx, &h)?;
            assert_eq!(m.verify_at(&h), bit == 256);
            ctx.same("verifies", &got, &(bit == 256)).map_err(|e| format!("{o:?} / {s:?}: hash bit {bit}: {e}"))
        }),
        stage("cross-type", no * (ns - 1) * 2, "signatures of a standard authorization moved into a sponsored one and back", move |ctx, i| {
            let o = origins()[(i % no) as usize].clone();
            let s = sponsors()[1 + (i / no % (ns - 1)) as usize].clone();
            let m = if i / no / (ns - 1) == 0 {
                let mut m = signed(&plain(), &o, None);
                let other = signed(&plain(), &o, s.as_ref());
                m.sponsor = other.sponsor;
                m
            } else {
                let mut m = signed(&plain(), &o, s.as_ref());
                m.sponsor = None;
                m
            };
            let s = if m.sponsor.is_some() { s } else { None };
            judge(ctx, &m, &o, s.as_ref()).map(|_| ()).map_err(|e| format!("{o:?} / {s:?}: {e}"))
        }),
    ];
    let many = Isolated {
        key: "many-keys".into(),
        what: "verifying a multi-key condition with 176 appended keys".into(),
        case: Box::new(|ctx| {
            let o = Spec::many(Hm::P2sh, &[0, 2], 2, 4, 5);
            let mut m = plain();
            m.origin = o.model();
            m.origin.fields = (0..176).map(|_| Field::Key(pkb(&pk(0)))).collect();
            let h = m.initial().unwrap();
            let (s, n) = sign_step(&h, 4, &m.origin, &sk(0));
            m.origin.fields.push(Field::Sig(s));
            let (s, _) = sign_step(&n, 4, &m.origin, &sk(2));
            m.origin.fields.push(Field::Sig(s));
            let tx = realise(ctx, &m, &o, None)?;
            let v = verifies(ctx, &tx, &h)?;
            ctx.same("verifies", &v, &false)
        }),
    };
    let over = Isolated {
        key: "many-signatures".into(),
        what: "verifying a multi-key condition with 256 signatures".into(),
        case: Box::new(|ctx| {
            let o = Spec::many(Hm::P2sh, &[0, 2], 2, 4, 5);
            let mut m = plain();
            m.origin = o.model();
            let h0 = m.initial().unwrap();
            let mut h = h0.clone();
            for _ in 0..256 {
                let (s, n) = sign_step(&h, 4, &m.origin, &sk(0));
                m.origin.fields.push(Field::Sig(s));
                h = n;
            }
            let tx = realise(ctx, &m, &o, None)?;
            let v = verifies(ctx, &tx, &h0)?;
            ctx.same("verifies", &v, &false)
        }),
    };
    Check {
        id: "C16",
        rule: "one case = one authorization content; Auth::verify and verify_origin compared with the model's verification",
        assumptions: assume(&["secp256k1 crate (recovery) is correct and shared by model and implementation", "conditions of at most 16 keys in the exhaustive stages"]),
        stages,
        isolated: vec![many, over],
    }
}

/// The k-th signature of a transaction, origin first.
fn nth_sig(m: &mut Tx, k: usize) -> Option<&mut Vec<u8>> {
    fn of(c: &mut Cond) -> Vec<&mut Vec<u8>> {
        if c.multi() {
            c.fields.iter_mut().filter_map(|f| if let Field::Sig(s) = f { Some(s) } else { None }).collect()
        } else {
            vec![&mut c.sig]
        }
    }
    let mut v = of(&mut m.origin);
    if let Some(s) = &mut m.sponsor {
        v.extend(of(s));
    }
    if k < v.len() {
        Some(v.swap_remove(k))
    } else {
        None
    }
}

fn tamper(m: &mut Tx, k: u64) -> bool {
    match k {
        0 => m.version ^= 0x80,
        1 => m.chain = if m.chain == 1 { 0x8000_0000 } else { 1 },
        2 => m.anchor = 1,
        3 => m.anchor = 2,
        4 => m.pcmode = 3 - m.pcmode,
        5 => m.pcs.clear(),
        6 => m.pcs = pc_sets()[2].clone(),
        7 => {
            let p = m.pcs[0].clone();
            m.pcs.push(p);
        }
        8..=10 => m.pay = pays()[(k - 7) as usize].clone(),
        11 => m.pay = Pay::Transfer(T::Std(ADDR.into()), 1001, "memo".into()),
        12 => m.pay = Pay::Transfer(T::Std(ADDR.into()), 1000, "memp".into()),
        13 => m.pay = Pay::Transfer(T::Std(ADDR_T.into()), 1000, "memo".into()),
        14 => m.origin.fee ^= 1,
        15 => m.origin.nonce ^= 1,
        16 => m.origin.fee = m.origin.fee.wrapping_add(1 << 56),
        17 => m.origin.nonce = m.origin.nonce.wrapping_add(1 << 56),
        18 => match &mut m.sponsor {
            Some(s) => s.fee ^= 1,
            None => return false,
        },
        19 => match &mut m.sponsor {
            Some(s) => s.nonce ^= 1,
            None => return false,
        },
        20 => match nth_sig(m, 0) {
            Some(s) => *s = vec![0; 65],
            None => return false,
        },
        21 => match nth_sig(m, 1) {
            Some(s) => *s = vec![0; 65],
            None => return false,
        },
        22 => {
            let Some(a) = nth_sig(m, 1).cloned() else { return false };
            let b = std::mem::replace(nth_sig(m, 0).unwrap(), a);
            *nth_sig(m, 1).unwrap() = b;
        }
        23 => {
            if m.origin.fields.is_empty() {
                return false;
            }
            m.origin.fields.pop();
        }
        24 => {
            if m.origin.fields.is_empty() {
                return false;
            }
            m.origin.fields.remove(0);
        }
        25 => {
            let Some(f) = m.origin.fields.first().cloned() else { return false };
            m.origin.fields.push(f);
        }
        26 => {
            let Some(f) = m.origin.fields.last().cloned() else { return false };
            m.origin.fields.insert(0, f);
        }
        27 => {
            if !m.origin.multi() {
                return false;
            }
            m.origin.fields.push(Field::Key(pkb(&pk(9))));
        }
        28 => match &mut m.sponsor {
            Some(s) if s.multi() => {
                s.fields.pop();
            }
            _ => return false,
        },
        _ => match &mut m.sponsor {
            Some(s) if s.multi() => s.fields.reverse(),
            _ => return false,
        },
    }
    true
}
