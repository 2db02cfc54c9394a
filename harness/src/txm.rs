//! Model of transactions: payloads, post-conditions, authorizations, their consensus encoding
//! (SIP-005), the signing-hash chain, and the bridge to the implementation's types.

use crate::refs::*;
use crate::term::*;
use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey};
use stacks_rs::crypto::c32::{Address, Mode};
use stacks_rs::crypto::Hash160;
use stacks_rs::transaction::*;

/// Runs `$e` with `$v` bound to the implementation value of `$t` at its own static type.
#[macro_export]
macro_rules! typed {
    ($t:expr, $v:ident => $e:expr) => {{
        use stacks_rs::clarity as __c;
        use $crate::term::{build as __b, T as __T};
        match $t {
            __T::Int(x) => { let $v = __c::Int::new(*x); $e }
            __T::UInt(x) => { let $v = __c::UInt::new(*x); $e }
            __T::Buf(b) => { let $v = __c::Buffer::new(b.clone()); $e }
            __T::True => { let $v = __c::True::new(); $e }
            __T::False => { let $v = __c::False::new(); $e }
            __T::Std(a) => { let $v = __c::PrincipalStandard::new(a.clone()); $e }
            __T::Con(a, n) => { let $v = __c::PrincipalContract::new((a.clone(), n.clone())); $e }
            __T::Ok(x) => { let $v = __c::ResponseOk::new(__b(x)); $e }
            __T::Err(x) => { let $v = __c::ResponseErr::new(__b(x)); $e }
            __T::None => { let $v = __c::OptionalNone::new(); $e }
            __T::Some(x) => { let $v = __c::OptionalSome::new(__b(x)); $e }
            __T::List(l) => { let $v = __c::List::new(l.iter().map(__b).collect()); $e }
            __T::Tup(l) => { let $v = __c::Tuple::new(l.iter().map(|(k, x)| (k.clone(), __b(x))).collect()); $e }
            __T::Ascii(s) => { let $v = __c::StringAscii::new(s.clone()); $e }
            __T::Utf8(s) => { let $v = __c::StringUtf8::new(s.clone()); $e }
        }
    }};
}

// ------------------------------------------------------------------ post-conditions

pub const CODES: [(ConditionCode, u8); 7] = [
    (ConditionCode::EQ, 1),
    (ConditionCode::GT, 2),
    (ConditionCode::GTE, 3),
    (ConditionCode::LT, 4),
    (ConditionCode::LTE, 5),
    (ConditionCode::HasNot, 0x10),
    (ConditionCode::Has, 0x11),
];

#[derive(Clone, Debug)]
pub struct Asset(pub String, pub String, pub String);

#[derive(Clone, Debug)]
pub enum Pc {
    Stx(T, u64, usize),
    Ft(T, u64, usize, Asset),
    Nft(T, T, usize, Asset),
}

fn enc_principal(t: &T) -> Option<Vec<u8>> {
    match t {
        T::Std(_) | T::Con(..) => {
            let mut v = enc(t)?;
            v[0] = if matches!(t, T::Std(_)) { 2 } else { 3 };
            Some(v)
        }
        _ => None,
    }
}

pub fn enc_asset(a: &Asset) -> Option<Vec<u8>> {
    let (h, ver) = address_dec(&a.0)?;
    let mut v = vec![ver];
    v.extend(h);
    v.extend(enc_name(&a.1)?);
    v.extend(enc_name(&a.2)?);
    Some(v)
}

pub fn enc_pc(p: &Pc) -> Option<Vec<u8>> {
    let mut v = vec![];
    match p {
        Pc::Stx(who, amount, code) => {
            v.push(0);
            v.extend(enc_principal(who)?);
            v.push(CODES[*code].1);
            v.extend(amount.to_be_bytes());
        }
        Pc::Ft(who, amount, code, a) => {
            v.push(1);
            v.extend(enc_principal(who)?);
            v.extend(enc_asset(a)?);
            v.push(CODES[*code].1);
            v.extend(amount.to_be_bytes());
        }
        Pc::Nft(who, id, code, a) => {
            v.push(2);
            v.extend(enc_principal(who)?);
            v.extend(enc_asset(a)?);
            v.extend(enc(id)?);
            v.push(CODES[*code].1);
        }
    }
    Some(v)
}

pub fn enc_pcs(p: &[Pc]) -> Option<Vec<u8>> {
    let mut v = (p.len() as u32).to_be_bytes().to_vec();
    for x in p {
        v.extend(enc_pc(x)?);
    }
    Some(v)
}

pub fn build_asset(a: &Asset) -> AssetInfo {
    AssetInfo::new(a.0.clone(), a.1.clone(), a.2.clone())
}

pub fn build_pc(p: &Pc) -> Box<dyn Condition> {
    match p {
        Pc::Stx(who, amount, code) => {
            typed!(who, w => Box::new(STXPostCondition::new(w, *amount, CODES[*code].0)) as Box<dyn Condition>)
        }
        Pc::Ft(who, amount, code, a) => {
            typed!(who, w => Box::new(FungiblePostCondition::new(w, *amount, CODES[*code].0, build_asset(a))) as Box<dyn Condition>)
        }
        Pc::Nft(who, id, code, a) => Box::new(NonFungiblePostCondition {
            address: build(who),
            name: build(id),
            code: CODES[*code].0,
            info: build_asset(a),
        }),
    }
}

pub fn build_pcs(p: &[Pc]) -> PostConditions {
    PostConditions::new(p.iter().map(build_pc).collect())
}

// ------------------------------------------------------------------ payloads

#[derive(Clone, Debug)]
pub enum Pay {
    Transfer(T, u64, String),
    /// address text, contract, function, arguments
    Call(String, String, String, Vec<T>),
}

pub fn enc_pay(p: &Pay) -> Option<Vec<u8>> {
    match p {
        Pay::Transfer(to, amount, memo) => {
            if !matches!(to, T::Std(_) | T::Con(..)) || memo.len() > 34 {
                return None;
            }
            let mut v = vec![0];
            v.extend(enc(to)?);
            v.extend(amount.to_be_bytes());
            v.extend(memo.as_bytes());
            v.resize(v.len() + 34 - memo.len(), 0);
            Some(v)
        }
        Pay::Call(addr, c, f, args) => {
            let (h, ver) = address_dec(addr)?;
            let mut v = vec![2, ver];
            v.extend(h);
            v.extend(enc_name(c)?);
            v.extend(enc_name(f)?);
            v.extend(enc_args(args)?);
            Some(v)
        }
    }
}

pub fn build_address(s: &str) -> Option<Address> {
    let (h, v) = address_dec(s)?;
    Some(Address::new(Hash160::new(h), v))
}

/// None when the address of a call does not parse (no payload value exists then).
pub fn build_pay(p: &Pay) -> Option<Box<dyn Payload>> {
    Some(match p {
        Pay::Transfer(to, amount, memo) => {
            typed!(to, t => Box::new(TokenTransferPayload::new(t, *amount, memo.clone())) as Box<dyn Payload>)
        }
        Pay::Call(addr, c, f, args) => {
            Box::new(ContractCallPayload::new(build_address(addr)?, c.clone(), f.clone(), build_args(args)))
        }
    })
}

// ------------------------------------------------------------------ authorizations

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hm {
    P2pkh = 0,
    P2sh = 1,
    P2wpkh = 2,
    P2wsh = 3,
}
pub const SINGLE: [Hm; 2] = [Hm::P2pkh, Hm::P2wpkh];
pub const MULTI: [Hm; 2] = [Hm::P2sh, Hm::P2wsh];

pub fn mode(h: Hm) -> Mode {
    match h {
        Hm::P2pkh => Mode::P2PKH,
        Hm::P2sh => Mode::P2SH,
        Hm::P2wpkh => Mode::P2WPKH,
        Hm::P2wsh => Mode::P2WSH,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Field {
    Key(Vec<u8>),
    Sig(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cond {
    pub mode: Hm,
    pub signer: Vec<u8>,
    pub nonce: u64,
    pub fee: u64,
    /// single-key conditions: `sig`; multi-key ones: `fields` and `required`
    pub sig: Vec<u8>,
    pub fields: Vec<Field>,
    pub required: u8,
}

impl Cond {
    pub fn multi(&self) -> bool {
        matches!(self.mode, Hm::P2sh | Hm::P2wsh)
    }
    pub fn single(mode: Hm, key: &[u8], fee: u64, nonce: u64) -> Self {
        let signer = if mode == Hm::P2pkh { hash160(key) } else { p2wpkh(key) };
        Cond { mode, signer, nonce, fee, sig: vec![0; 65], fields: vec![], required: 1 }
    }
    pub fn many(mode: Hm, keys: &[Vec<u8>], required: u8, fee: u64, nonce: u64) -> Self {
        let signer = if mode == Hm::P2sh { p2sh(required, keys) } else { p2wsh(required, keys) };
        Cond { mode, signer, nonce, fee, sig: vec![0; 65], fields: vec![], required }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![self.mode as u8];
        v.extend(&self.signer);
        v.extend(self.nonce.to_be_bytes());
        v.extend(self.fee.to_be_bytes());
        if self.multi() {
            v.extend((self.fields.len() as u32).to_be_bytes());
            for f in &self.fields {
                match f {
                    Field::Key(k) => {
                        v.push(0);
                        v.extend(k);
                    }
                    Field::Sig(s) => {
                        v.push(2);
                        v.extend(s);
                    }
                }
            }
            v.extend((self.required as u16).to_be_bytes());
        } else {
            v.push(0);
            v.extend(&self.sig);
        }
        v
    }
    pub fn cleared(&self) -> Self {
        Cond { nonce: 0, fee: 0, sig: vec![0; 65], fields: vec![], ..self.clone() }
    }
    pub fn sigs(&self) -> usize {
        if self.multi() {
            self.fields.iter().filter(|f| matches!(f, Field::Sig(_))).count()
        } else {
            usize::from(self.sig.iter().any(|b| *b != 0))
        }
    }
    /// The signing hash after this condition if it is satisfied for hash `h`.
    pub fn verify(&self, h: &[u8], typ: u8) -> Option<Vec<u8>> {
        let mut h = h.to_vec();
        let hash = if self.multi() {
            let mut keys = vec![];
            let mut n = 0usize;
            for f in &self.fields {
                match f {
                    Field::Key(k) => keys.push(k.clone()),
                    Field::Sig(s) => {
                        let pre = presign(&h, typ, self.fee, self.nonce);
                        keys.push(recover(&pre, s)?);
                        h = postsign(&pre, s);
                        n += 1;
                    }
                }
            }
            if n < self.required as usize {
                return None;
            }
            if self.mode == Hm::P2sh {
                p2sh(self.required, &keys)
            } else {
                p2wsh(self.required, &keys)
            }
        } else {
            let pre = presign(&h, typ, self.fee, self.nonce);
            let k = recover(&pre, &self.sig)?;
            h = postsign(&pre, &self.sig);
            if self.mode == Hm::P2pkh {
                hash160(&k)
            } else {
                p2wpkh(&k)
            }
        };
        (hash == self.signer).then_some(h)
    }
}

pub fn empty_sponsor() -> Cond {
    Cond { mode: Hm::P2pkh, signer: vec![0; 20], nonce: 0, fee: 0, sig: vec![0; 65], fields: vec![], required: 1 }
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub version: u8,
    pub chain: u32,
    pub origin: Cond,
    pub sponsor: Option<Cond>,
    pub anchor: u8,
    pub pcmode: u8,
    pub pcs: Vec<Pc>,
    pub pay: Pay,
}

impl Tx {
    pub fn enc(&self) -> Option<Vec<u8>> {
        let mut v = vec![self.version];
        v.extend(self.chain.to_be_bytes());
        v.push(if self.sponsor.is_some() { 5 } else { 4 });
        v.extend(self.origin.enc());
        if let Some(s) = &self.sponsor {
            v.extend(s.enc());
        }
        v.push(self.anchor);
        v.push(self.pcmode);
        v.extend(enc_pcs(&self.pcs)?);
        v.extend(enc_pay(&self.pay)?);
        Some(v)
    }
    /// The hash the first origin signature starts from.
    pub fn initial(&self) -> Option<Vec<u8>> {
        let mut t = self.clone();
        t.origin = t.origin.cleared();
        t.sponsor = t.sponsor.map(|_| empty_sponsor());
        Some(sha512_256(&t.enc()?))
    }
    pub fn verify(&self) -> bool {
        self.verify_at(&self.initial().expect("encodable"))
    }
    pub fn verify_at(&self, h: &[u8]) -> bool {
        let Some(h) = self.origin.verify(h, 4) else { return false };
        match &self.sponsor {
            None => true,
            Some(s) => s.verify(&h, 5).is_some(),
        }
    }
}

pub fn presign(h: &[u8], typ: u8, fee: u64, nonce: u64) -> Vec<u8> {
    let mut v = h.to_vec();
    v.push(typ);
    v.extend(fee.to_be_bytes());
    v.extend(nonce.to_be_bytes());
    sha512_256(&v)
}
pub fn postsign(pre: &[u8], sig: &[u8]) -> Vec<u8> {
    let mut v = pre.to_vec();
    v.push(0);
    v.extend(sig);
    sha512_256(&v)
}
thread_local!(static SECP: Secp256k1<secp256k1::All> = Secp256k1::new());

/// Recovery id, then the compact signature.
pub fn sign65(pre: &[u8], key: &SecretKey) -> Vec<u8> {
    let (id, c) = SECP
        .with(|s| s.sign_ecdsa_recoverable(&Message::from_digest_slice(pre).unwrap(), key))
        .serialize_compact();
    let mut v = vec![id.to_i32() as u8];
    v.extend(c);
    v
}
pub fn recover(pre: &[u8], sig: &[u8]) -> Option<Vec<u8>> {
    if sig.len() != 65 {
        return None;
    }
    let id = RecoveryId::from_i32(sig[0] as i32).ok()?;
    let r = RecoverableSignature::from_compact(&sig[1..], id).ok()?;
    let k = SECP.with(|s| s.recover_ecdsa(&Message::from_digest_slice(pre).unwrap(), &r)).ok()?;
    Some(k.serialize().to_vec())
}
/// One signature onto a condition: (signature, next hash).
pub fn sign_step(h: &[u8], typ: u8, c: &Cond, key: &SecretKey) -> (Vec<u8>, Vec<u8>) {
    let pre = presign(h, typ, c.fee, c.nonce);
    let s = sign65(&pre, key);
    let n = postsign(&pre, &s);
    (s, n)
}

/// Deterministic test keys: scalar 1, 2, n-1 and hashes.
pub fn keys(n: usize) -> Vec<(SecretKey, PublicKey)> {
    let secp = Secp256k1::new();
    (0..n)
        .map(|i| {
            let b = match i {
                0 => {
                    let mut b = vec![0; 32];
                    b[31] = 1;
                    b
                }
                1 => unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"),
                _ => sha256(&[i as u8, 0x5a]),
            };
            let s = SecretKey::from_slice(&b).unwrap();
            (s, s.public_key(&secp))
        })
        .collect()
}
pub fn pkb(k: &PublicKey) -> Vec<u8> {
    k.serialize().to_vec()
}

// ------------------------------------------------------------------ network

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Net {
    Main,
    Test,
    Mock,
}
pub const NETS: [Net; 3] = [Net::Main, Net::Test, Net::Mock];
impl Net {
    pub fn version(self) -> u8 {
        if self == Net::Main {
            0
        } else {
            0x80
        }
    }
    pub fn chain(self) -> u32 {
        if self == Net::Main {
            1
        } else {
            0x8000_0000
        }
    }
    pub fn url(self) -> &'static str {
        match self {
            Net::Main => "https://api.mainnet.hiro.so",
            Net::Test => "https://api.testnet.hiro.so",
            Net::Mock => "http://localhost:3999",
        }
    }
}
pub const ANCHORS: [(AnchorMode, u8); 3] = [(AnchorMode::Strict, 1), (AnchorMode::Micro, 2), (AnchorMode::Any, 3)];
pub const PCMODES: [(PostConditionMode, u8); 2] = [(PostConditionMode::Allow, 1), (PostConditionMode::Deny, 2)];

/// Direct construction, bypassing the builders. Conditions are fresh (unsigned).
pub fn build_tx(t: &Tx, origin: Box<dyn SpendingCondition>, sponsor: Option<Box<dyn SpendingCondition>>) -> Transaction {
    let (v, c) = if t.version == 0 {
        (TransactionVersion::Mainnet, if t.chain == 1 { ChainID::Mainnet } else { ChainID::Testnet })
    } else {
        (TransactionVersion::Testnet, if t.chain == 1 { ChainID::Mainnet } else { ChainID::Testnet })
    };
    let auth = match sponsor {
        None => Auth::Standard(origin),
        Some(s) => Auth::Sponsored(origin, s),
    };
    Transaction::new(
        v,
        c,
        auth,
        ANCHORS[(t.anchor - 1) as usize].0,
        PCMODES[(t.pcmode - 1) as usize].0,
        build_pcs(&t.pcs),
        build_pay(&t.pay).expect("address"),
    )
}
