//! C17: wallets.

use harness::engine::*;
use harness::refs::*;
use hmac::{Hmac, Mac};
use secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey};
use sha2::Sha512;
use stacks_rs::crypto::c32::Version;
use stacks_rs::wallet::{StacksAccount, StacksWallet};
use std::collections::HashMap;

pub fn registry() -> Registry {
    vec![("C17", c17)]
}

// ------------------------------------------------------------------ model

fn hmac512(key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut m = Hmac::<Sha512>::new_from_slice(key).unwrap();
    m.update(data);
    m.finalize().into_bytes().to_vec()
}

#[derive(Clone)]
struct X {
    key: SecretKey,
    chain: Vec<u8>,
}

impl X {
    fn split(i: &[u8]) -> X {
        X { key: SecretKey::from_slice(&i[..32]).unwrap(), chain: i[32..].to_vec() }
    }
    fn pk(&self) -> PublicKey {
        self.key.public_key(&Secp256k1::new())
    }
    /// BIP-32 private child derivation.
    fn child(&self, i: u32) -> X {
        let mut d = vec![];
        if i >= 1 << 31 {
            d.push(0);
            d.extend(self.key.secret_bytes());
        } else {
            d.extend(self.pk().serialize());
        }
        d.extend(i.to_be_bytes());
        let h = hmac512(&self.chain, &d);
        let t = Scalar::from_be_bytes(h[..32].try_into().unwrap()).unwrap();
        X { key: self.key.add_tweak(&t).unwrap(), chain: h[32..].to_vec() }
    }
    fn root(mnemonic: &str) -> X {
        let mut seed = [0u8; 64];
        pbkdf2::pbkdf2::<Hmac<Sha512>>(mnemonic.as_bytes(), b"mnemonic", 2048, &mut seed).unwrap();
        let h = 1u32 << 31;
        X::split(&hmac512(b"Bitcoin seed", &seed)).child(h + 44).child(h + 5757).child(h).child(0)
    }
}

fn list() -> &'static [&'static str; 2048] {
    bip39::Language::English.word_list()
}

/// BIP-39: entropy (16..32 bytes, multiple of 4) to words.
fn phrase(entropy: &[u8]) -> Vec<usize> {
    let mut bits: Vec<bool> = entropy.iter().flat_map(|b| (0..8).rev().map(move |k| b >> k & 1 == 1)).collect();
    let sum = sha256(entropy);
    for k in 0..entropy.len() / 4 {
        bits.push(sum[k / 8] >> (7 - k % 8) & 1 == 1);
    }
    bits.chunks(11).map(|c| c.iter().fold(0, |a, b| a * 2 + usize::from(*b))).collect()
}
fn valid(words: &[usize]) -> bool {
    if ![12, 15, 18, 21, 24].contains(&words.len()) {
        return false;
    }
    let bits: Vec<bool> = words.iter().flat_map(|w| (0..11).rev().map(move |k| w >> k & 1 == 1)).collect();
    let n = words.len() * 11 * 32 / 33 / 8;
    let ent: Vec<u8> = bits[..n * 8].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | u8::from(*b))).collect();
    phrase(&ent) == words
}
fn text(words: &[usize]) -> String {
    words.iter().map(|w| list()[*w]).collect::<Vec<_>>().join(" ")
}

const VER: [(Version, u8); 4] =
    [(Version::MainnetP2PKH, 22), (Version::MainnetP2SH, 20), (Version::TestnetP2PKH, 26), (Version::TestnetP2SH, 21)];

fn account_is(ctx: &mut Ctx, a: &StacksAccount, x: &X) -> Result<(), String> {
    let k = ctx.try_sut("account private key", || a.private_key())?;
    ctx.same("account private key", &k.ok().map(|k| hexs(&k.secret_bytes())), &Some(hexs(&x.key.secret_bytes())))?;
    let p = ctx.try_sut("account public key", || a.public_key())?;
    let pk = x.pk();
    ctx.same("account public key", &p.ok(), &Some(pk))?;
    for (v, n) in VER {
        let s = ctx.try_sut("account address", || a.get_address(v))?;
        ctx.same("account address", &s.ok(), &address(&hash160(&pk.serialize()), n))?;
    }
    Ok(())
}

fn wallet_is(ctx: &mut Ctx, w: &StacksWallet, x: &X) -> Result<(), String> {
    let k = ctx.try_sut("wallet private key", || w.private_key())?;
    ctx.same("wallet private key", &k.ok().map(|k| hexs(&k.secret_bytes())), &Some(hexs(&x.key.secret_bytes())))?;
    let p = ctx.try_sut("wallet public key", || w.public_key())?;
    ctx.same("wallet public key", &p.ok(), &Some(x.pk()))
}

fn open(ctx: &mut Ctx, m: &str) -> Result<Option<StacksWallet>, String> {
    Ok(ctx.try_sut("from_secret_key", || StacksWallet::from_secret_key(m))?.ok())
}

/// Accept exactly if valid; then the keys are those of the model.
fn phrase_case(ctx: &mut Ctx, t: &str, ok: bool) -> Result<(), String> {
    ctx.state(t.as_bytes());
    let go = |ctx: &mut Ctx| {
        let w = open(ctx, t)?;
        ctx.same("mnemonic accepted", &w.is_some(), &ok)?;
        let Some(mut w) = w else { return Ok(()) };
        let x = X::root(t);
        wallet_is(ctx, &w, &x)?;
        for i in [0, 7] {
            let a = ctx.try_sut("get_account", || w.get_account(i))?.map_err(|e| format!("get_account: {e}"))?;
            account_is(ctx, &a, &x.child(i)).map_err(|e| format!("account {i}: {e}"))?;
        }
        Ok(())
    };
    go(ctx).map_err(|e: String| format!("mnemonic {}: {e}", short(&t)))
}

// ------------------------------------------------------------------ histories

const IDX: [u32; 4] = [0, 1, 2, 1 << 31];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// request account IDX[i] of wallet w
    Get(usize),
    /// store under IDX[i] the account another wallet derives at IDX[j]
    SetForeign(usize, usize),
    /// store under IDX[i] this wallet's own account j
    SetOwn(usize, usize),
    /// go on with a clone, keeping the original for the end
    Clone,
    /// go back to the wallet kept by the last clone
    Back,
}

struct Fixture {
    a: X,
    b: X,
    wallet: StacksWallet,
    own: Vec<StacksAccount>,
    foreign: Vec<StacksAccount>,
}

fn history(ctx: &mut Ctx, f: &Fixture, ops: &[Op]) -> Result<(), String> {
    let mut cur = (f.wallet.clone(), HashMap::<usize, (bool, usize)>::new());
    let mut kept: Vec<(StacksWallet, HashMap<usize, (bool, usize)>)> = vec![];
    let key = |m: &HashMap<usize, (bool, usize)>, i: usize| match m.get(&i) {
        Some((true, j)) => f.b.child(IDX[*j]),
        Some((false, j)) => f.a.child(IDX[*j]),
        None => f.a.child(IDX[i]),
    };
    let look = |ctx: &mut Ctx, w: &mut StacksWallet, m: &HashMap<usize, (bool, usize)>, i: usize| -> Result<(), String> {
        let a = ctx.try_sut("get_account", || w.get_account(IDX[i]))?.map_err(|e| format!("get_account: {e}"))?;
        let k = ctx.try_sut("private_key", || a.private_key())?;
        ctx.same(&format!("private key of account {}", IDX[i]), &k.ok().map(|k| hexs(&k.secret_bytes())), &Some(hexs(&key(m, i).key.secret_bytes())))
    };
    for op in ops {
        match *op {
            Op::Get(i) => look(ctx, &mut cur.0, &cur.1, i)?,
            Op::SetForeign(i, j) => {
                ctx.sut("set_account", || cur.0.set_account(IDX[i], f.foreign[j].clone()))?;
                cur.1.insert(i, (true, j));
            }
            Op::SetOwn(i, j) => {
                ctx.sut("set_account", || cur.0.set_account(IDX[i], f.own[j].clone()))?;
                cur.1.insert(i, (false, j));
            }
            Op::Clone => {
                let c = ctx.sut("clone", || cur.0.clone())?;
                let m = cur.1.clone();
                kept.push(std::mem::replace(&mut cur, (c, m)));
            }
            Op::Back => {
                if let Some(k) = kept.pop() {
                    let left = std::mem::replace(&mut cur, k);
                    kept.insert(0, left);
                }
            }
        }
    }
    kept.push(cur);
    for (n, (w, m)) in kept.iter_mut().enumerate() {
        wallet_is(ctx, w, &f.a).map_err(|e| format!("at the end, wallet {n}: {e}"))?;
        for i in 0..IDX.len() {
            look(ctx, w, m, i).map_err(|e| format!("at the end, wallet {n}: {e}"))?;
        }
    }
    Ok(())
}

fn c17(tier: Tier) -> Check {
    let sizes = [16usize, 20, 24, 28, 32];
    let seeds: Vec<Vec<usize>> =
        sizes.iter().flat_map(|s| (0..PATTERNS).map(move |p| phrase(&pattern(*s, p)))).collect();
    let np = seeds.len() as u64;
    let base: Vec<Vec<usize>> = vec![phrase(&pattern(16, 5)), phrase(&pattern(32, 2))];
    let base2 = base.clone();
    let base3 = base.clone();
    let nacc = tier.pick(1500u64, 20_000);
    let edge: Vec<u32> = {
        let mut v = vec![];
        for b in 0..32 {
            let p = 1u32 << b;
            v.extend([p.wrapping_sub(1), p, p.wrapping_add(1), !p]);
        }
        v.extend([u32::MAX, u32::MAX - 1]);
        v.sort_unstable();
        v.dedup();
        v
    };
    let ne = edge.len() as u64;
    let tm: Vec<String> = vec![text(&base[0]), text(&base[1])];
    let roots: Vec<X> = tm.iter().map(|t| X::root(t)).collect();
    let (tm2, roots2) = (tm.clone(), roots.clone());
    let (tm3, roots3) = (tm.clone(), roots.clone());
    let ops: Vec<Op> = {
        use Op::*;
        vec![Get(0), Get(1), Get(2), Get(3), SetForeign(1, 0), SetForeign(0, 0), SetOwn(2, 0), SetOwn(0, 2), Clone, Back]
    };
    let no = ops.len() as u64;
    let long = tier.pick(400u32, 3000);
    let (tm4, roots4) = (tm.clone(), roots.clone());
    let depth = tier.pick(4, 5);
    let full = tier.pick(false, true);
    let subst = if full { 2048 } else { 256 };
    let stages = vec![
        stage("entropies", np, "mnemonics of 12..24 words from 6 entropy patterns each", move |ctx, i| {
            let w = &seeds[i as usize];
            assert!(valid(w));
            ctx.sample(|| text(w));
            phrase_case(ctx, &text(w), true)
        }),
        stage("word-substitutions", (12 + 24) * subst, format!("each word of a 12-word and a 24-word mnemonic replaced by {subst} words"), move |ctx, i| {
            let p = (i / subst) as usize;
            let (b, p) = if p < 12 { (0, p) } else { (1, p - 12) };
            let mut w = base[b].clone();
            w[p] = (w[p] + (i % subst) as usize * (2048 / subst as usize)) % 2048;
            let ok = valid(&w);
            phrase_case(ctx, &text(&w), ok)
        }),
        stage("word-swaps", (12 * 11 + 24 * 23) / 2, "each pair of words swapped", move |ctx, i| {
            let (b, mut i) = if i < 66 { (0, i as usize) } else { (1, i as usize - 66) };
            let mut w = base2[b].clone();
            let mut p = 0;
            while i >= w.len() - 1 - p {
                i -= w.len() - 1 - p;
                p += 1;
            }
            w.swap(p, p + 1 + i);
            let ok = valid(&w);
            phrase_case(ctx, &text(&w), ok)
        }),
        stage("word-counts", 31 * 4, "0..30 words: cut, repeated, all equal", move |ctx, i| {
            let n = (i / 4) as usize;
            let w: Vec<usize> = match i % 4 {
                0 => base3[0].iter().cycle().take(n).copied().collect(),
                1 => base3[1].iter().cycle().take(n).copied().collect(),
                2 => vec![0; n],
                _ => vec![2047; n],
            };
            let ok = valid(&w);
            phrase_case(ctx, &text(&w), ok)
        }),
        stage("last-words", 2048, "eleven equal words and every last word", move |ctx, i| {
            let mut w = vec![0; 11];
            w.push(i as usize);
            let ok = valid(&w);
            phrase_case(ctx, &text(&w), ok)
        }),
        stage("malformed", 14, "texts that are not mnemonics", |ctx, i| {
            let t = [
                "",
                " ",
                "abandon",
                "abandonn abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
                "not a mnemonic at all",
                "1 2 3 4 5 6 7 8 9 10 11 12",
                "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon",
                "é é é é é é é é é é é é",
                "0x0000000000000000000000000000000000000000000000000000000000000001",
                "abandon,abandon,abandon,abandon,abandon,abandon,abandon,abandon,abandon,abandon,abandon,about",
                "\0",
                "ABANDON ABANDON ABANDON ABANDON ABANDON ABANDON ABANDON ABANDON ABANDON ABANDON ABANDON ABOUT",
                "aban aban aban aban aban aban aban aban aban aban aban abou",
                "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
            ][i as usize];
            phrase_case(ctx, t, false)
        }),
        stage("accounts", nacc * 2, format!("accounts 0..{nacc} of two wallets"), move |ctx, i| {
            account(ctx, &tm2[(i % 2) as usize], &roots2[(i % 2) as usize], (i / 2) as u32)
        }),
        stage("accounts-edge", ne * 2, "accounts near every power of two, hardened indices included", move |ctx, i| {
            account(ctx, &tm3[(i % 2) as usize], &roots3[(i % 2) as usize], edge[(i / 2) as usize])
        }),
        stage("long-histories", 4 * 3 * 2, format!("{long} accounts requested in 4 orders from a wallet with accounts stored before, half-way or never, with and without clones; stored and earlier accounts asked for again after each"), move |ctx, i| {
            let (order, store, clones) = (i % 4, i / 4 % 3, i / 12 == 1);
            let mut w = open(ctx, &tm4[0])?.ok_or("mnemonic refused")?;
            let mut f = open(ctx, &tm4[1])?.ok_or("mnemonic refused")?;
            let mut stored: HashMap<u32, X> = HashMap::new();
            let mut known: HashMap<u32, X> = HashMap::new();
            let at = |n: u32| match order {
                0 => n,
                1 => long - 1 - n,
                2 => n.wrapping_mul(0x9e37_79b1),
                _ => (n % 7) << 28 | n / 7,
            };
            for n in 0..long {
                if store == 1 && n == 0 || store == 2 && n == long / 2 {
                    for k in [at(0), at(5), at(long - 3), u32::MAX] {
                        let a = ctx.try_sut("get_account", || f.get_account(k / 2))?.map_err(|e| format!("get_account: {e}"))?;
                        ctx.sut("set_account", || w.set_account(k, a))?;
                        stored.insert(k, roots4[1].child(k / 2));
                    }
                }
                if clones && n % 3 == 0 {
                    w = ctx.sut("clone", || w.clone())?;
                }
                ctx.state(format!("{i} {n}").as_bytes());
                for k in [at(n), at(n / 2), at(0), at(5), u32::MAX] {
                    let a = ctx.try_sut("get_account", || w.get_account(k))?.map_err(|e| format!("get_account: {e}"))?;
                    let key = ctx.try_sut("private_key", || a.private_key())?;
                    let x = match stored.get(&k) {
                        Some(x) => x,
                        None => known.entry(k).or_insert_with(|| roots4[0].child(k)),
                    };
                    ctx.same(&format!("private key of account {k} after {n} requests"), &key.ok().map(|k| hexs(&k.secret_bytes())), &Some(hexs(&x.key.secret_bytes())))?;
                }
            }
            wallet_is(ctx, &w, &roots4[0])
        }),
        stage("histories", words(no, depth), format!("every sequence of <= {depth} of 10 operations (get, store own or foreign account, clone, return to original)"), move |ctx, i| {
            thread_local!(static F: std::cell::OnceCell<Fixture> = const { std::cell::OnceCell::new() });
            F.with(|c| {
                let f = c.get_or_init(|| {
                    let get = |t: &str| {
                        let mut w = StacksWallet::from_secret_key(t).unwrap();
                        let v: Vec<_> = IDX.iter().map(|i| w.get_account(*i).unwrap()).collect();
                        (StacksWallet::from_secret_key(t).unwrap(), v)
                    };
                    let (wallet, own) = get(&tm[0]);
                    let (_, foreign) = get(&tm[1]);
                    Fixture { a: roots[0].clone(), b: roots[1].clone(), wallet, own, foreign }
                });
                let h = nth_word(&ops, i);
                ctx.state(format!("{h:?}").as_bytes());
                ctx.sample(|| format!("{h:?}"));
                history(ctx, f, &h).map_err(|e| format!("{h:?}: {e}"))
            })
        }),
    ];
    Check {
        id: "C17",
        rule: "one case = one mnemonic text, one account index, or one history of wallet operations; keys and addresses compared with a BIP-39/BIP-32 reference",
        assumptions: vec!["hmac, sha2, pbkdf2 and secp256k1 crates are correct".into(), "the English word list is the bip39 crate's; extra white space and other languages are not judged".into()],
        stages,
        isolated: vec![],
    }
}

fn account(ctx: &mut Ctx, t: &str, x: &X, i: u32) -> Result<(), String> {
    thread_local!(static W: std::cell::RefCell<HashMap<String, StacksWallet>> = Default::default());
    ctx.state(format!("{t}{i}").as_bytes());
    let mut w = W.with(|m| {
        m.borrow_mut().entry(t.to_string()).or_insert_with(|| StacksWallet::from_secret_key(t).unwrap()).clone()
    });
    let c = x.child(i);
    for round in 0..2 {
        let a = ctx.try_sut("get_account", || w.get_account(i))?.map_err(|e| format!("account {i}: {e}"))?;
        account_is(ctx, &a, &c).map_err(|e| format!("account {i}, request {round}: {e}"))?;
    }
    Ok(())
}
