//! C19, C20: the RPC client against a node stand-in on the loopback interface.

mod mock;

use harness::engine::*;
use harness::refs::*;
use harness::term::*;
use harness::txm::*;
use mock::*;
use serde_json::{json, Value};
use stacks_rs::clarity::Codec;
use stacks_rs::rpc::*;
use stacks_rs::transaction::*;

thread_local!(static SERVER: Server = Server::new());

// ------------------------------------------------------------------ calls

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Info,
    Address(String),
    Fee(usize),
    Broadcast(usize),
    ReadOnly(String, String, String, Vec<T>, String),
}

const ENDPOINTS: u64 = 5;
fn endpoint(i: u64) -> Call {
    match i {
        0 => Call::Info,
        1 => Call::Address(ADDR.into()),
        2 => Call::Fee(1),
        3 => Call::Broadcast(1),
        _ => Call::ReadOnly(ADDR.into(), "contract".into(), "get-it".into(), vec![T::UInt(1), T::None], ADDR_T.into()),
    }
}

/// A call's outcome, free of error kinds.
#[derive(Clone, Debug, PartialEq)]
enum R {
    Success(Vec<String>),
    Node(Vec<String>),
    Fail,
}

fn outcome(rpc: &StacksRPC, call: &Call) -> R {
    match call {
        Call::Info => match rpc.info() {
            Ok(i) => R::Success(vec![
                i.peer_version.to_string(),
                i.pox_consensus,
                i.burn_block_height.to_string(),
                i.stable_pox_consensus,
                i.stable_burn_block_height.to_string(),
                i.server_version,
                i.network_id.to_string(),
                i.parent_network_id.to_string(),
                i.stacks_tip_height.to_string(),
                i.stacks_tip,
                i.stacks_tip_consensus_hash,
                i.genesis_chainstate_hash,
            ]),
            Err(_) => R::Fail,
        },
        Call::Address(a) => match rpc.address(a.as_str()) {
            Ok(i) => R::Success(vec![
                i.balance,
                i.locked,
                i.unlock_height.to_string(),
                i.nonce.to_string(),
                i.balance_proof,
                i.nonce_proof,
            ]),
            Err(_) => R::Fail,
        },
        Call::Fee(t) => match rpc.estimate_fee(&transaction(*t)) {
            Ok(EstimateFeeResponse::Ok(f)) => {
                R::Success(f.estimations.iter().flat_map(|e| [e.fee.to_string(), format!("{:?}", e.fee_rate)]).collect())
            }
            Ok(EstimateFeeResponse::Err(e)) => R::Node(vec![e]),
            Err(_) => R::Fail,
        },
        Call::Broadcast(t) => match rpc.broadcast(&transaction(*t)) {
            Ok(BroadcastResponse::Ok(s)) => R::Success(vec![s]),
            Ok(BroadcastResponse::Err(e)) => R::Node(vec![e.error, e.reason, e.txid]),
            Err(_) => R::Fail,
        },
        Call::ReadOnly(a, c, f, args, sender) => match rpc.read_only(a, c, f, build_args(args), sender) {
            Ok(ReadOnlyResponse::Ok(o)) => R::Success(vec![o.okay.to_string(), o.result]),
            Ok(ReadOnlyResponse::Err(e)) => R::Node(vec![e.okay.to_string(), e.cause]),
            Err(_) => R::Fail,
        },
    }
}

/// Runs a call on a client; a connection that never reached the stand-in is tried again,
/// so that a shortage of local ports is not taken for the client's doing.
fn run(c: &mut Ctx, rpc: &StacksRPC, call: &Call, replies: &[Reply]) -> Result<(R, Vec<Req>, usize, Option<String>), String> {
    let mut last = None;
    for attempt in 0..3 {
        if attempt > 0 {
            std::thread::sleep(std::time::Duration::from_millis(200));
        }
        SERVER.with(|s| s.script(replies.to_vec()));
        let r = c.sut(&format!("{call:?}"), || outcome(rpc, call))?;
        let (seen, conns, broken) = SERVER.with(|s| s.seen());
        let arrived = conns > 0;
        last = Some((r, seen, conns, broken));
        if arrived {
            break;
        }
    }
    last.ok_or_else(|| "no attempt".into())
}

fn http(status: u64, body: &[u8], framing: u64, extra: &str) -> Vec<u8> {
    let mut o = format!("HTTP/1.1 {status} Some Reason\r\nServer: mock\r\n{extra}").into_bytes();
    match framing {
        0 => {
            o.extend(format!("Content-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len()).bytes());
            o.extend(body);
        }
        1 => {
            o.extend(b"Content-Type: text/plain\r\nTransfer-Encoding: chunked\r\n\r\n");
            for part in body.chunks(7) {
                o.extend(format!("{:x}\r\n", part.len()).bytes());
                o.extend(part);
                o.extend(b"\r\n");
            }
            o.extend(b"0\r\n\r\n");
        }
        _ => {
            o.extend(b"Connection: close\r\n\r\n");
            o.extend(body);
        }
    }
    o
}

// ------------------------------------------------------------------ transactions

fn pays() -> Vec<Pay> {
    let mut v = vec![
        Pay::Transfer(T::Std(ADDR.into()), 1000, "memo".into()),
        Pay::Transfer(T::Con(ADDR_T.into(), "vault".into()), u64::MAX, "é".repeat(17)),
        Pay::Transfer(T::Std(ADDR_T.into()), 0, "".into()),
        Pay::Call(ADDR.into(), "contract".into(), "fn-name".into(), vec![]),
        Pay::Call(ADDR_T.into(), "c".into(), "f?".into(), vec![T::Buf(vec![0xab; 3000]), T::Buf((0..=255).collect())]),
    ];
    for t in leaves() {
        v.push(Pay::Call(ADDR.into(), "c".into(), "f".into(), vec![t, T::Tup(vec![("b".into(), T::True), ("a".into(), T::None)])]));
    }
    v
}

fn pcs() -> Vec<Vec<Pc>> {
    let a = Asset(ADDR.into(), "my-contract".into(), "my-asset".into());
    let s = T::Std(ADDR.into());
    vec![
        vec![],
        vec![Pc::Stx(s.clone(), 7, 2)],
        vec![Pc::Ft(T::Con(ADDR_T.into(), "con".into()), u64::MAX, 0, a.clone()), Pc::Nft(s, T::UInt(9), 6, a)],
    ]
}

const AUTHS: usize = 6;

fn transactions() -> usize {
    pays().len() * pcs().len() * AUTHS
}

const BIG: usize = 1 << 32;

/// Lengths around the powers of two at which buffers and length fields end.
fn lengths(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1];
    for p in 4..=tier.pick(20, 22) {
        v.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    v
}

/// Transactions by number; from BIG on, contract calls with one buffer of that many bytes.
fn transaction(i: usize) -> Transaction {
    if i >= BIG {
        let m = Tx {
            version: 0,
            chain: 1,
            origin: empty_sponsor(),
            sponsor: None,
            anchor: 3,
            pcmode: 1,
            pcs: pcs()[1].clone(),
            pay: Pay::Call(ADDR.into(), "contract".into(), "fn-name".into(), vec![T::Buf(pattern(i - BIG, 3)), T::True]),
        };
        return build_tx(&m, Box::new(SpendingConditionStandard::new(keys(1)[0].1, 1, 2, mode(Hm::P2pkh))), None);
    }
    let (p, i) = (i % pays().len(), i / pays().len());
    let (c, a) = (i % pcs().len(), i / pcs().len());
    let ks = keys(4);
    let pk: Vec<_> = ks.iter().map(|k| k.1).collect();
    let single = |k: usize, f, n, h| Box::new(SpendingConditionStandard::new(pk[k], f, n, mode(h))) as Box<dyn SpendingCondition>;
    let many = |k: std::ops::Range<usize>, r, f, n, h| {
        Box::new(SpendingConditionMultiSig::new(&pk[k], f, n, r, mode(h))) as Box<dyn SpendingCondition>
    };
    let (o, s) = match a {
        0 => (single(0, 3, 4, Hm::P2pkh), None),
        1 => (single(0, u64::MAX, 1, Hm::P2wpkh), None),
        2 => (many(0..3, 2, 5, 6, Hm::P2sh), None),
        3 => (many(1..4, 1, 7, 8, Hm::P2wsh), None),
        4 => (single(1, 9, 10, Hm::P2pkh), Some(single(2, 11, 12, Hm::P2wpkh))),
        _ => (many(0..4, 4, 13, 14, Hm::P2wsh), Some(many(0..2, 2, 15, 16, Hm::P2sh))),
    };
    let m = Tx {
        version: if a % 2 == 0 { 0 } else { 0x80 },
        chain: if a % 2 == 0 { 1 } else { 0x8000_0000 },
        origin: empty_sponsor(),
        sponsor: None,
        anchor: 1 + (p % 3) as u8,
        pcmode: 1 + (c % 2) as u8,
        pcs: pcs()[c].clone(),
        pay: pays()[p].clone(),
    };
    let tx = build_tx(&m, o, s);
    if a == 0 || a == 2 {
        // signed ones as well
        let mut s = TransactionSigner::new(tx).expect("signer");
        s.sign_origin(ks[0].0).expect("signature");
        return s.transaction();
    }
    tx
}

// ------------------------------------------------------------------ C19

fn unpercent(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3).ok_or("dangling % in the path")?;
            o.push(u8::from_str_radix(h, 16).map_err(|_| format!("escape %{h} in the path"))?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).map_err(|_| "path is not UTF-8".into())
}

/// Does the request say what the call meant?
fn judge_request(c: &mut Ctx, prefix: &str, call: &Call, r: &Req) -> Result<(), String> {
    let (method, path): (&str, Vec<&str>) = match call {
        Call::Info => ("GET", vec!["v2", "info"]),
        Call::Address(a) => ("GET", vec!["v2", "accounts", a]),
        Call::Fee(_) => ("POST", vec!["v2", "fees", "transaction"]),
        Call::Broadcast(_) => ("POST", vec!["v2", "transactions"]),
        Call::ReadOnly(a, n, f, ..) => ("POST", vec!["v2", "contracts", "call-read", a, n, f]),
    };
    c.same("method", &r.method.as_str(), &method)?;
    c.holds("query or fragment in the request target", !r.target.contains(['?', '#']))?;
    let got: Result<Vec<String>, String> = r.target.split('/').map(unpercent).collect();
    let want: Vec<String> =
        prefix.split('/').map(String::from).chain(path.iter().map(|s| s.to_string())).collect();
    c.same("path segments", &got, &Ok(want))?;
    let ctype = r.header("content-type").unwrap_or("").split(';').next().unwrap_or("").trim().to_ascii_lowercase();
    let json_body = || -> Result<Value, String> { serde_json::from_slice(&r.body).map_err(|e| format!("request body is not JSON: {e}")) };
    match call {
        Call::Info | Call::Address(_) => c.holds("a GET request with a body", r.body.is_empty()),
        Call::Broadcast(t) => {
            c.same("content type", &ctype.as_str(), &"application/octet-stream")?;
            let want = transaction(*t).encode().map_err(|e| format!("{e:?}"))?;
            c.state(&want);
            c.same("broadcast body", &hexs(&r.body), &hexs(&want))
        }
        Call::Fee(t) => {
            c.same("content type", &ctype.as_str(), &"application/json")?;
            let b = json_body()?;
            let tx = transaction(*t);
            let pay = tx.payload.encode().map_err(|e| format!("{e:?}"))?;
            let len = tx.encode().map_err(|e| format!("{e:?}"))?.len();
            c.state(&r.body);
            c.same("transaction_payload", &b["transaction_payload"].as_str(), &Some(hexs(&pay).as_str()))?;
            c.same("estimated_len", &b["estimated_len"].as_u64(), &Some(len as u64))
        }
        Call::ReadOnly(_, _, _, args, sender) => {
            c.same("content type", &ctype.as_str(), &"application/json")?;
            let b = json_body()?;
            c.state(&[r.target.as_bytes(), &r.body].concat());
            c.same("sender", &b["sender"].as_str(), &Some(sender.as_str()))?;
            let want: Vec<String> =
                args.iter().map(|t| build(t).encode().map(|b| hexs(&b))).collect::<Result<_, _>>().map_err(|e| format!("{e:?}"))?;
            let got: Option<Vec<String>> = b["arguments"]
                .as_array()
                .and_then(|a| a.iter().map(|x| x.as_str().map(String::from)).collect());
            c.same("arguments", &got, &Some(want))
        }
    }
}

const PREFIXES: [&str; 4] = ["", "/api", "/some/deep-er/base", "/v2"];

fn request(c: &mut Ctx, prefix: &str, call: &Call, replies: &[Reply]) -> Result<(), String> {
    let rpc = StacksRPC::new(SERVER.with(|s| s.base()) + prefix);
    c.sample(|| format!("{call:?} under base path {prefix:?}"));
    let (_, seen, conns, broken) = run(c, &rpc, call, replies)?;
    let go = |c: &mut Ctx| {
        if let Some(b) = broken {
            return Err(b);
        }
        c.same("requests sent", &seen.len(), &1)?;
        c.same("connections made", &conns, &1)?;
        judge_request(c, prefix, call, &seen[0])
    };
    go(c).map_err(|e: String| format!("{call:?}: {e}"))
}

fn name_chars() -> Vec<char> {
    ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("-_!?+<>=/*".chars()).collect()
}

/// Function names legal in Clarity.
fn fn_names(tier: Tier) -> Vec<String> {
    let all = name_chars();
    let special: Vec<char> = "-_!?+<>=/*".chars().collect();
    let mut v: Vec<String> = ["-", "+", "=", "/", "*", "<", ">", "<=", ">="].iter().map(|s| s.to_string()).collect();
    v.extend(('a'..='z').chain('A'..='Z').map(String::from));
    for c in &all {
        v.push(format!("f{c}"));
    }
    for c in &special {
        for d in &all {
            v.push(format!("f{c}{d}"));
            v.push(format!("f{d}{c}"));
        }
    }
    if tier == Tier::Thorough {
        for c in &special {
            for d in &special {
                for e in &special {
                    v.push(format!("f{c}{d}{e}"));
                }
            }
        }
    }
    // what looks like an escape, a dot segment or a query
    v.extend(["a/b/c", "get-value", "a?b=c", "f/", "f//", "n".repeat(128).as_str(), "f?".repeat(64).as_str()].map(String::from));
    v
}

fn contract_names() -> Vec<String> {
    let mut v: Vec<String> = ('a'..='z').chain('A'..='Z').map(String::from).collect();
    for c in ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("-_".chars()) {
        v.push(format!("c{c}"));
        v.push(format!("c{c}-_x"));
    }
    v.extend(["n".repeat(40), "n".repeat(128), "send-many-memo".into()]);
    v
}

/// Texts that URL handling tends to rewrite, all pairs of their parts.
fn odd_texts() -> Vec<String> {
    let parts = ["", ".", "..", "a", "%", "%2e", "%2E", "%2f", "%41", "%zz", " ", "\t", "\n", "\\", "/", "?", "#", ":", "@", ";", "&", "=", "+", "~", "'", "\"", "<", "|", "{", "\u{0}", "é", "\u{1f600}"];
    let mut v: Vec<String> = parts.iter().flat_map(|a| parts.iter().map(move |b| format!("{a}{b}"))).collect();
    v.extend(["a.b", ".a.", "../..", "./.", "%2e%2e%2f", "http://x/", "//"].map(String::from));
    v.sort();
    v.dedup();
    v
}

fn addresses() -> Vec<String> {
    let mut v = vec![];
    for ver in VERSIONS {
        for p in 0..PATTERNS {
            v.push(address(&pattern(20, p), ver).unwrap());
        }
    }
    v.dedup();
    v
}

/// Calls that differ from one another in one respect.
fn history_call(i: u64) -> Call {
    let ro = |a: &str, n: &str, f: &str, args: Vec<T>, s: &str| Call::ReadOnly(a.into(), n.into(), f.into(), args, s.into());
    match i {
        0 => Call::Info,
        1 => Call::Address(ADDR.into()),
        2 => Call::Address(ADDR_T.into()),
        3 => Call::Fee(0),
        4 => Call::Fee(1),
        5 => Call::Broadcast(0),
        6 => Call::Broadcast(1),
        7 => ro(ADDR, "a", "f", vec![T::UInt(1)], ADDR),
        8 => ro(ADDR_T, "a", "f", vec![T::UInt(1)], ADDR),
        9 => ro(ADDR, "b", "f", vec![T::UInt(1)], ADDR),
        10 => ro(ADDR, "a", "g", vec![T::UInt(1)], ADDR),
        11 => ro(ADDR, "a", "f", vec![T::UInt(2)], ADDR),
        _ => ro(ADDR, "a", "f", vec![T::UInt(1)], ADDR_T),
    }
}

fn c19(tier: Tier) -> Check {
    let nl = lengths(tier).len() as u64;
    let hn = 13u64;
    let hdepth = tier.pick(3, 4);
    let ok = || vec![Reply::Bytes(http(200, b"{}", 0, ""))];
    let statuses: Vec<u64> = std::iter::once(200).chain(400..600).collect();
    let ns = statuses.len() as u64;
    let nf = faults(&success_body(3)).len() as u64;
    let addrs = addresses();
    let na = addrs.len() as u64;
    let a2 = addrs.clone();
    let ntx = transactions() as u64;
    let fns = fn_names(tier);
    let nfn = fns.len() as u64;
    let cons = contract_names();
    let nc = cons.len() as u64;
    let space = Space::new(few_leaves(), &["a", "b"], 2, 1);
    let np = space.count();
    let two = tier.pick(np.min(60), np.min(250));
    let ro = |a: &str, c: &str, f: &str, args: Vec<T>, s: &str| Call::ReadOnly(a.into(), c.into(), f.into(), args, s.into());
    Check {
        id: "C19",
        rule: "the one request a loopback node stand-in receives for a call is the documented one and carries the call's data",
        assumptions: vec![
            "path segments are compared after percent-decoding; JSON bodies may carry further keys".into(),
            "the serialisation of transactions, payloads and arguments is judged by C02 and C11 to C13, here only that those bytes are sent".into(),
            "base URLs without trailing slash; GET requests answered by a redirect to another place are not judged".into(),
        ],
        stages: vec![
            stage("endpoint-base-status", ENDPOINTS * 4 * ns, format!("5 calls x 4 base paths x {ns} answer statuses"), move |c, i| {
                let (e, i) = (i % ENDPOINTS, i / ENDPOINTS);
                let st = statuses[(i / 4) as usize];
                request(c, PREFIXES[(i % 4) as usize], &endpoint(e), &[Reply::Bytes(http(st, b"{}", 0, ""))])
            }),
            stage("one-request-under-faults", ENDPOINTS * nf, format!("5 calls x {nf} transport faults after which the request has arrived"), move |c, i| {
                let (e, f) = (i % ENDPOINTS, i / ENDPOINTS);
                let fault = faults(&success_body(e))[f as usize].1.clone();
                let call = endpoint(e);
                let rpc = StacksRPC::new(SERVER.with(|s| s.base()));
                let (_, seen, _, _) = run(c, &rpc, &call, &[fault])?;
                c.holds(&format!("{call:?} was sent {} times after a transport fault", seen.len()), seen.len() <= 1)
            }),
            stage("addresses", na * 3, format!("{na} addresses of every version, alone and as two contract principals"), move |c, i| {
                let a = &addrs[(i % na) as usize];
                let a = match i / na {
                    0 => a.clone(),
                    1 => format!("{a}.c"),
                    _ => format!("{a}.{}", "name-_9".repeat(5)),
                };
                request(c, "", &Call::Address(a), &ok())
            }),
            stage("transactions", ntx * 2, format!("{ntx} transactions (payloads of every kind x post-conditions x authorizations, signed and not) broadcast and estimated"), move |c, i| {
                let t = (i / 2) as usize;
                request(c, "", &if i % 2 == 0 { Call::Broadcast(t) } else { Call::Fee(t) }, &ok())
            }),
            stage("function-names", nfn, "all one-character names, all names of a letter and one or two legal characters, dot- and escape-like and maximal names", move |c, i| {
                request(c, "", &ro(ADDR, "contract", &fns[i as usize], vec![], ADDR), &ok())
            }),
            stage("contract-names", nc, "all one-character names, all legal second characters, maximal names", move |c, i| {
                request(c, "", &ro(ADDR_T, &cons[i as usize], "f", vec![], ADDR), &ok())
            }),
            stage("segment-characters", 0x180 * 6, "every character up to U+017F in an account address, contract address, contract name, function name and sender, and in all of them", move |c, i| {
                let ch = char::from_u32((i % 0x180) as u32).unwrap();
                let s = format!("x{ch}y");
                let at = |k: u64, s: &str, d: &str| if i / 0x180 == k || i / 0x180 == 5 { s.to_string() } else { d.to_string() };
                let call = match i / 0x180 {
                    0 => Call::Address(s),
                    _ => ro(&at(1, &s, ADDR), &at(2, &s, "contract"), &at(3, &s, "f"), vec![], &at(4, &s, ADDR)),
                };
                request(c, "", &call, &ok())
            }),
            stage("odd-segments", odd_texts().len() as u64 * 6, format!("{} texts that URLs treat specially as account address, contract address, contract name, function name and sender, and in all of them: carried as given, or, where no URL path can carry them, refused and nothing sent", odd_texts().len()), move |c, i| {
                let n = odd_texts().len() as u64;
                let s = odd_texts()[(i % n) as usize].clone();
                let at = |k: u64, d: &str| if i / n == k || i / n == 5 { s.clone() } else { d.to_string() };
                let call = match i / n {
                    0 => Call::Address(s.clone()),
                    _ => ro(&at(1, ADDR), &at(2, "contract"), &at(3, "f"), vec![], &at(4, ADDR)),
                };
                if i / n == 4 || !matches!(s.as_str(), "." | "..") {
                    return request(c, "/api", &call, &ok());
                }
                // no retry here: that nothing arrives is what is expected
                let rpc = StacksRPC::new(SERVER.with(|s| s.base()) + "/api");
                SERVER.with(|s| s.script(ok()));
                let r = c.sut(&format!("{call:?}"), || outcome(&rpc, &call))?;
                let (seen, _, _) = SERVER.with(|s| s.seen());
                c.same("answer", &r, &R::Fail).map_err(|e| format!("{call:?}: {e}"))?;
                c.same("requests sent", &seen.len(), &0).map_err(|e| format!("{call:?}: {e}"))
            }),
            stage("read-only-principals", na * na, "all ordered pairs of contract address and sender", move |c, i| {
                let (a, s) = (&a2[(i % na) as usize], &a2[(i / na) as usize]);
                request(c, "", &ro(a, "contract", "f", vec![], &if i % 3 == 0 { format!("{s}.c") } else { s.clone() }), &ok())
            }),
            stage("arguments", np + two * two + 4, format!("every term over small leaves to depth 1 ({np}), all ordered pairs of {two} of them, longer lists"), move |c, i| {
                let args = if i < np {
                    vec![space.nth(i)]
                } else if i < np + two * two {
                    let j = i - np;
                    let step = np / two;
                    vec![space.nth(j % two * step), space.nth(j / two * step)]
                } else {
                    match i - np - two * two {
                        0 => vec![],
                        1 => leaves(),
                        2 => leaves().into_iter().rev().collect(),
                        _ => (0..300).map(T::UInt).collect(),
                    }
                };
                if args.iter().any(|t| enc(t).is_none()) {
                    return Ok(());
                }
                request(c, "", &ro(ADDR, "contract", "f", args, ADDR), &ok())
            }),
            stage("sizes", nl * 3, format!("broadcast, estimate and read-only call with a buffer of each of {nl} lengths up to {}", lengths(tier)[nl as usize - 1]), move |c, i| {
                let n = lengths(tier)[(i / 3) as usize];
                let call = match i % 3 {
                    0 => Call::Broadcast(BIG + n),
                    1 => Call::Fee(BIG + n),
                    _ => ro(ADDR, "contract", "f", vec![T::Buf(pattern(n, 3)), T::None], ADDR),
                };
                request(c, "", &call, &ok()).map_err(|e| short(&e))
            }),
            stage("alternations", hn * hn, format!("all ordered pairs of {hn} calls, alternating 40 times on one client"), move |c, i| {
                let rpc = StacksRPC::new(SERVER.with(|s| s.base()));
                for k in 0..40 {
                    let call = history_call(if k % 2 == 0 { i % hn } else { i / hn });
                    let (_, seen, conns, broken) = run(c, &rpc, &call, &[Reply::Bytes(http(200, success_body(2).as_bytes(), 0, ""))])?;
                    let go = |c: &mut Ctx| {
                        if let Some(b) = broken {
                            return Err(b);
                        }
                        c.same("requests sent", &(seen.len(), conns), &(1, 1))?;
                        judge_request(c, "", &call, &seen[0])
                    };
                    go(c).map_err(|e: String| format!("{call:?} as call {k} on the client: {e}"))?;
                }
                Ok(())
            }),
            stage("argument-counts", 130, "read-only calls with 0..129 arguments", move |c, i| {
                request(c, "", &ro(ADDR, "contract", "f", (0..i as u128).map(T::UInt).collect(), ADDR), &ok())
            }),
            stage("histories", hn.pow(hdepth) * 3, format!("all sequences of {hdepth} of {hn} calls, each answered by success or a rejection, on one client, on its clones, and alternating between clients of different base paths"), move |c, i| {
                let (way, mut i) = (i % 3, i / 3);
                let base = SERVER.with(|s| s.base());
                let one = StacksRPC::new(base.clone());
                let two = StacksRPC::new(base.clone() + "/api");
                let mut past = vec![];
                for step in 0..hdepth {
                    let call = history_call(i % hn);
                    let st = [200, 400, 500][(i + step as u64) as usize % 3];
                    i /= hn;
                    let (rpc, prefix) = match (way, step % 2) {
                        (0, _) | (2, 0) => (&one, ""),
                        (1, _) => (&one.clone(), ""),
                        _ => (&two, "/api"),
                    };
                    let (_, seen, conns, broken) = run(c, rpc, &call, &[Reply::Bytes(http(st, success_body(2).as_bytes(), 0, ""))])?;
                    let go = |c: &mut Ctx| {
                        if let Some(b) = broken {
                            return Err(b);
                        }
                        c.same("requests sent", &(seen.len(), conns), &(1, 1))?;
                        judge_request(c, prefix, &call, &seen[0])
                    };
                    go(c).map_err(|e: String| format!("{call:?} after {past:?}: {e}"))?;
                    past.push(call);
                }
                Ok(())
            }),
        ],
        isolated: vec![],
    }
}

// ------------------------------------------------------------------ C20

fn faults(body: &str) -> Vec<(&'static str, Reply)> {
    let body = body.as_bytes();
    let b = |s: &str| Reply::Bytes(s.as_bytes().to_vec());
    let whole = http(200, body, 0, "");
    let chunked = http(200, body, 1, "");
    vec![
        ("closed at once", Reply::CloseAtOnce),
        ("closed after the request", Reply::CloseAfterRequest),
        ("reset after the request", Reply::Reset(vec![])),
        ("empty answer", b("")),
        ("part of a status line", b("HTTP/1.1 2")),
        ("garbage", b("this is no HTTP\r\n\r\n")),
        ("binary garbage", Reply::Bytes((0..=255).collect())),
        ("status line only", b("HTTP/1.1 200 OK\r\n")),
        ("head without end", b("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n")),
        ("bad status", b("HTTP/1.1 2x0 OK\r\nContent-Length: 2\r\n\r\n{}")),
        ("body cut at half", Reply::Bytes(whole[..whole.len() - body.len() / 2].to_vec())),
        ("body missing", Reply::Bytes(whole[..whole.len() - body.len()].to_vec())),
        ("body one byte short", Reply::Bytes(whole[..whole.len() - 1].to_vec())),
        ("chunked body cut", Reply::Bytes(chunked[..chunked.len() - 20].to_vec())),
        ("reset inside the body", Reply::Reset(whole[..whole.len() - 10].to_vec())),
    ]
}

fn good_text() -> &'static [u8] {
    b"\"4e1ee42a2d2d6f4e4c5d6e3c1f6b0d9c8b7a69584736251403f2e1d0c9b8a796\""
}

const INFO: [(&str, bool); 12] = [
    ("peer_version", true),
    ("pox_consensus", false),
    ("burn_block_height", true),
    ("stable_pox_consensus", false),
    ("stable_burn_block_height", true),
    ("server_version", false),
    ("network_id", true),
    ("parent_network_id", true),
    ("stacks_tip_height", true),
    ("stacks_tip", false),
    ("stacks_tip_consensus_hash", false),
    ("genesis_chainstate_hash", false),
];
const ACCOUNT: [(&str, bool); 6] = [
    ("balance", false),
    ("locked", false),
    ("unlock_height", true),
    ("nonce", true),
    ("balance_proof", false),
    ("nonce_proof", false),
];
const REJECT: [(&str, bool); 3] = [("error", false), ("reason", false), ("txid", false)];

/// JSON text of an object, in the given key order.
fn object(e: &[(&str, Value)]) -> String {
    let v: Vec<String> = e.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn shown(v: &Value) -> String {
    v.as_str().map(String::from).unwrap_or_else(|| v.to_string())
}

/// A flat object with the given fields: bodies and, for well-formed ones, the field values.
fn flat(fields: &[(&'static str, bool)]) -> Vec<(String, Option<Vec<String>>)> {
    let base: Vec<(&str, Value)> = fields
        .iter()
        .enumerate()
        .map(|(i, (k, num))| (*k, if *num { json!(1000 + i) } else { json!(format!("value-{i}")) }))
        .collect();
    let vals = |e: &[(&str, Value)]| Some(fields.iter().map(|(k, _)| shown(&e.iter().find(|x| x.0 == *k).unwrap().1)).collect());
    let mut out = vec![(object(&base), vals(&base))];
    for r in 1..base.len() {
        let mut e = base.clone();
        e.rotate_left(r);
        out.push((object(&e), vals(&e)));
    }
    let mut e = base.clone();
    e.reverse();
    out.push((object(&e), vals(&e)));
    for (at, extra) in [(0, json!(5)), (1, json!({"a": [1, 2, {"error": "x"}]})), (base.len(), json!("txid"))] {
        let mut e = base.clone();
        e.insert(at, ("unknown_key", extra));
        out.push((object(&e), vals(&e)));
    }
    // spread over lines, and surrounded by blanks
    let pretty: Value = serde_json::from_str(&object(&base)).unwrap();
    out.push((format!(" \r\n{}\n\t ", serde_json::to_string_pretty(&pretty).unwrap()), vals(&base)));
    for (i, (k, num)) in fields.iter().enumerate() {
        let good: Vec<Value> = if *num {
            let mut g = vec![json!(0), json!(1), json!(u32::MAX)];
            if !k.ends_with("network_id") {
                g.extend([json!(1u64 << 32), json!((1u64 << 53) + 1), json!(i64::MAX), json!(1u64 << 63), json!(u64::MAX)]);
            }
            g
        } else {
            ["", "0", "0x00", "é\u{1F600}", "a\"b\\c/d\n\u{0}", " padded ", "null", "{}"].iter().map(|s| json!(s)).collect()
        };
        for g in good {
            let mut e = base.clone();
            e[i].1 = g;
            out.push((object(&e), vals(&e)));
        }
        let mut bad: Vec<Value> = if *num {
            vec![json!(-1), json!("5"), json!(1.5), json!(-9_007_199_254_740_993i64)]
        } else {
            vec![json!(5), json!(0.5)]
        };
        if k.ends_with("network_id") {
            bad.extend([json!(1u64 << 32), json!(u64::MAX)]);
        }
        bad.extend([Value::Null, json!(true), json!([]), json!({}), json!(["x"]), json!({"x": 1})]);
        for b in bad {
            let mut e = base.clone();
            e[i].1 = b;
            out.push((object(&e), None));
        }
        if *num {
            out.push((object(&base).replace(&base[i].1.to_string(), "18446744073709551616"), None));
        }
        let mut e = base.clone();
        e.remove(i);
        out.push((object(&e), None));
        let mut e = base.clone();
        let up = k.to_uppercase();
        e[i].0 = &up;
        out.push((object(&e), None));
    }
    broken(&object(&base), &mut out);
    out
}

/// Every proper prefix of a JSON text, and other things that are not it.
fn broken(text: &str, out: &mut Vec<(String, Option<Vec<String>>)>) {
    for n in 0..text.len() {
        if text.is_char_boundary(n) {
            out.push((text[..n].to_string(), None));
        }
    }
    for b in ["null", "true", "5", "[]", "{}", "<html><body>502</body></html>", "\"text\"", "not json", "[{}]"] {
        out.push((b.into(), None));
    }
    out.push((format!("{text}x"), None));
    out.push((format!("{text}{text}"), None));
    out.push((format!("[{text}]"), None));
}

fn estimates() -> Vec<(String, Option<Vec<String>>)> {
    let rates = [(json!(0.0), "0.0"), (json!(1.5), "1.5"), (json!(1000), "1000.0"), (json!(0.25), "0.25")];
    let fees = [0u64, 1, 180, u32::MAX as u64 + 1, (1 << 53) + 1, u64::MAX];
    let mut out = vec![("{\"estimations\":[]}".to_string(), Some(vec![]))];
    for f in fees {
        for (r, t) in &rates {
            let one = json!({"fee": f, "fee_rate": r});
            out.push((json!({"estimations": [one]}).to_string(), Some(vec![f.to_string(), t.to_string()])));
            let two = json!({"fee_rate": 2.5, "fee": 3, "other": null});
            out.push((
                json!({"cost_scalar_change_by_byte": 0.004, "estimated_cost": {"fee": 9}, "estimations": [one, two, one], "z": 1}).to_string(),
                Some([f.to_string().as_str(), t, "3", "2.5", f.to_string().as_str(), t].map(String::from).to_vec()),
            ));
        }
    }
    for bad in [
        json!({"estimations": null}),
        json!({"estimations": {}}),
        json!({"estimations": [5]}),
        json!({"estimations": [{"fee": 1}]}),
        json!({"estimations": [{"fee_rate": 1.0}]}),
        json!({"estimations": [{"fee": "1", "fee_rate": 1.0}]}),
        json!({"estimations": [{"fee": -1, "fee_rate": 1.0}]}),
        json!({"estimations": [{"fee": 1.5, "fee_rate": 1.0}]}),
        json!({"estimations": [{"fee": 1, "fee_rate": "1.0"}]}),
        json!({"estimations": [{"fee": 1, "fee_rate": 1.0}, {"fee": 1}]}),
        json!({"estimations": [{"fee": 1, "fee_rate": 1.0}, null]}),
        json!({"estimation": [{"fee": 1, "fee_rate": 1.0}]}),
        json!({"error": "x", "reason": "NoEstimateAvailable", "reason_data": {"message": "m"}}),
        json!({"estimations": [{"fee": null, "fee_rate": 1.0}]}),
    ] {
        out.push((bad.to_string(), None));
    }
    out.push((r#"{"estimations":[{"fee":18446744073709551616,"fee_rate":1.0}]}"#.into(), None));
    broken(&json!({"estimations": [{"fee": 1, "fee_rate": 1.0}]}).to_string(), &mut out);
    out
}

/// Read-only answers and their meaning.
fn answers() -> Vec<(String, R)> {
    let mut out = vec![];
    for s in ["0x0703", "", "é", "0x", "a\"b\\", "Unchecked(UndefinedFunction(\"f\"))", "null"] {
        for extra in [false, true] {
            let mut ok = vec![("okay", json!(true)), ("result", json!(s))];
            let mut no = vec![("okay", json!(false)), ("cause", json!(s))];
            if extra {
                ok.push(("cause", Value::Null));
                no.push(("result", Value::Null));
                ok.push(("zzz", json!([1])));
                no.push(("zzz", json!([1])));
            }
            for _ in 0..2 {
                out.push((object(&ok), R::Success(vec!["true".into(), s.into()])));
                out.push((object(&no), R::Node(vec!["false".into(), s.into()])));
                ok.reverse();
                no.reverse();
            }
        }
    }
    let mut bad = vec![];
    for b in [
        json!({"okay": true}),
        json!({"okay": false}),
        json!({"result": "0x03"}),
        json!({"cause": "x"}),
        json!({"okay": "true", "result": "0x03"}),
        json!({"okay": 1, "result": "0x03"}),
        json!({"okay": null, "result": "0x03"}),
        json!({"okay": true, "result": 5}),
        json!({"okay": true, "result": null}),
        json!({"okay": true, "result": {}}),
        json!({"okay": false, "cause": null}),
        json!({"okay": false, "cause": []}),
        json!({"okay": "false", "cause": "x"}),
        json!({"Okay": true, "result": "0x03"}),
    ] {
        bad.push((b.to_string(), None));
    }
    broken(&object(&[("okay", json!(true)), ("result", json!("0x03"))]), &mut bad);
    broken(&object(&[("okay", json!(false)), ("cause", json!("NotFound"))]), &mut bad);
    out.extend(bad.into_iter().map(|(b, _)| (b, R::Fail)));
    out
}

enum Want {
    Is(R),
    OneOf(Vec<R>),
    NotSuccess,
}

fn judge(c: &mut Ctx, rpc: &StacksRPC, call: &Call, reply: &[Reply], want: Want, what: &str) -> Result<(), String> {
    let (got, ..) = run(c, rpc, call, reply)?;
    c.sample(|| format!("{call:?} answered by {what}: {got:?}"));
    let at = format!("{} answered by {what}", short(call));
    match want {
        Want::Is(w) => c.same(&at, &got, &w),
        Want::OneOf(w) => c.holds(&format!("{at}: outcome {got:?} is none of {w:?}"), w.contains(&got)),
        Want::NotSuccess => c.holds(&format!("{at}: reported as success {got:?}"), !matches!(got, R::Success(_))),
    }
}

/// What a 200 answer with this text means for a broadcast.
fn broadcast_ok(body: &str) -> Want {
    let mut w = vec![R::Success(vec![body.to_string()])];
    if let Ok(Value::String(s)) = serde_json::from_str::<Value>(body) {
        w.push(R::Success(vec![s]));
    } else {
        w.push(R::Fail);
    }
    Want::OneOf(w)
}

fn success_body(e: u64) -> String {
    match e {
        0 => flat(&INFO)[0].0.clone(),
        1 => flat(&ACCOUNT)[0].0.clone(),
        2 => estimates()[2].0.clone(),
        3 => String::from_utf8(good_text().to_vec()).unwrap(),
        _ => answers()[0].0.clone(),
    }
}
fn success_of(e: u64) -> Want {
    match e {
        0 => Want::Is(R::Success(flat(&INFO)[0].1.clone().unwrap())),
        1 => Want::Is(R::Success(flat(&ACCOUNT)[0].1.clone().unwrap())),
        2 => Want::Is(R::Success(estimates()[2].1.clone().unwrap())),
        3 => broadcast_ok(&success_body(3)),
        _ => Want::Is(answers()[0].1.clone()),
    }
}
const REJECTION: &str = r#"{"error":"transaction rejected","reason":"NotEnoughFunds","reason_data":{"actual":"0x01","expected":"0x02"},"txid":"a1b2"}"#;

/// What an answer with an error status (400 and up) and this text means.
fn rejected(e: u64, body: &str) -> Want {
    match e {
        2 => Want::Is(R::Node(vec![body.to_string()])),
        3 => {
            let v: Option<Value> = serde_json::from_str(body).ok();
            let f: Option<Vec<String>> =
                v.and_then(|v| REJECT.iter().map(|(k, _)| v.get(k).and_then(|x| x.as_str()).map(String::from)).collect());
            Want::Is(f.map(R::Node).unwrap_or(R::Fail))
        }
        _ => Want::Is(R::Fail),
    }
}

/// The four things that can happen to a call in a history.
fn event(e: u64, k: u64) -> (Reply, Want, String) {
    match k {
        0 => (Reply::Bytes(http(200, success_body(e).as_bytes(), 0, "")), success_of(e), "success".into()),
        1 => (Reply::Bytes(http(400, REJECTION.as_bytes(), 0, "")), rejected(e, REJECTION), "a rejection".into()),
        2 => (Reply::Bytes(http(500, b"<oops>", 2, "")), rejected(e, "<oops>"), "a failing node".into()),
        _ => (Reply::CloseAfterRequest, Want::Is(R::Fail), "a closed connection".into()),
    }
}

/// Characters that text handling tends to treat specially, and all up to U+017F.
fn odd_chars() -> Vec<char> {
    (0..0x180).filter_map(char::from_u32).chain("\u{300}\u{2000}\u{200b}\u{2028}\u{2029}\u{3000}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".chars()).collect()
}

fn client() -> StacksRPC {
    StacksRPC::new(SERVER.with(|s| s.base()))
}

fn c20(tier: Tier) -> Check {
    let nl = lengths(tier).len() as u64;
    let statuses: Vec<u64> = std::iter::once(200).chain(300..600).collect();
    let ns = statuses.len() as u64;
    let framings = 3u64;
    let (info, acct) = (flat(&INFO), flat(&ACCOUNT));
    let (ni, na) = (info.len() as u64, acct.len() as u64);
    let est = estimates();
    let ne = est.len() as u64;
    let ans = answers();
    let nr = ans.len() as u64;
    let rej = flat(&REJECT);
    let nj = rej.len() as u64;
    let nf = faults(&success_body(3)).len() as u64;
    let ev = ENDPOINTS * 4;
    let depth = tier.pick(3, 4);
    let want = |w: &Option<Vec<String>>| Want::Is(w.clone().map(R::Success).unwrap_or(R::Fail));
    let go = move |c: &mut Ctx, e: u64, st: u64, body: &str, fr: u64, w: Want| {
        c.state(format!("{e} {st} {body}").as_bytes());
        judge(c, &client(), &endpoint(e), &[Reply::Bytes(http(st, body.as_bytes(), fr, ""))], w, &format!("{st} {body:?} (framing {fr})"))
    };
    Check {
        id: "C20",
        rule: "a call's outcome (fields, the node's own error, or failure) is the one the scripted answer or fault means",
        assumptions: vec![
            "the text of a successful broadcast answer may be returned as received or as the JSON string it holds; a text that is no JSON string may also be an error".into(),
            "read-only answers whose flag contradicts the fields present, 2xx statuses other than 200, and redirects of GET requests to another place are not judged".into(),
        ],
        stages: vec![
            stage("status", ENDPOINTS * 4 * ns * 3, format!("5 calls x 4 bodies (success, rejection, text, none) x {ns} statuses (200, 300-599) x 3 framings"), move |c, i| {
                let (e, i) = (i % ENDPOINTS, i / ENDPOINTS);
                let (b, i) = (i % 4, i / 4);
                let (st, fr) = (statuses[(i % ns) as usize], i / ns);
                let body = match b {
                    0 => success_body(e),
                    1 => REJECTION.into(),
                    2 => "Bad things happened.".into(),
                    _ => String::new(),
                };
                let w = match (st, b) {
                    (200, 0) => success_of(e),
                    (200, _) if e == 3 => broadcast_ok(&body),
                    (200, _) => Want::Is(R::Fail),
                    (300..=399, _) => Want::NotSuccess,
                    _ => rejected(e, &body),
                };
                go(c, e, st, &body, fr, w)
            }),
            stage("redirects", 3 * 100 * 2, "the 3 POST calls x every 3xx status with a Location answering success, to the same and to another path", move |c, i| {
                let (e, i) = (2 + i % 3, i / 3);
                let (st, other) = (300 + i % 100, i / 100);
                let to = if other == 1 { "/elsewhere" } else { "/v2/transactions" };
                let first = Reply::Bytes(http(st, b"", 0, &format!("Location: {to}\r\n")));
                let then = Reply::Bytes(http(200, success_body(e).as_bytes(), 0, ""));
                judge(c, &client(), &endpoint(e), &[first, then], Want::NotSuccess, &format!("{st} to {to}"))
            }),
            stage("info", ni * framings, format!("{ni} node-info bodies: key orders, unknown keys, boundary values, each field missing, mistyped or out of range, every truncation"), move |c, i| {
                let (b, w) = &info[(i % ni) as usize];
                go(c, 0, 200, b, i / ni, want(w))
            }),
            stage("account", na * framings, format!("{na} account bodies, same variations"), move |c, i| {
                let (b, w) = &acct[(i % na) as usize];
                go(c, 1, 200, b, i / na, want(w))
            }),
            stage("estimates", ne * framings, format!("{ne} fee-estimate bodies, same variations"), move |c, i| {
                let (b, w) = &est[(i % ne) as usize];
                go(c, 2, 200, b, i / ne, want(w))
            }),
            stage("read-only", nr * framings, format!("{nr} read-only bodies, same variations"), move |c, i| {
                let (b, w) = &ans[(i % nr) as usize];
                go(c, 4, 200, b, i / nr, Want::Is(w.clone()))
            }),
            stage("rejections", nj * framings, format!("{nj} rejection bodies of a broadcast, same variations"), move |c, i| {
                let (b, w) = &rej[(i % nj) as usize];
                let w = Want::Is(w.clone().map(R::Node).unwrap_or(R::Fail));
                go(c, 3, 400, b, i / nj, w)
            }),
            stage("sizes", nl * 7 * framings, format!("answers of 7 kinds whose text field has each of {nl} lengths up to {}, 3 framings", lengths(tier)[nl as usize - 1]), move |c, i| {
                let (fr, i) = (i % framings, i / framings);
                let n = lengths(tier)[(i / 7) as usize];
                let s: String = "0123456789abcdef".chars().cycle().take(n).collect();
                let (e, st, body, w) = match i % 7 {
                    0 => {
                        let mut f: Vec<(&str, Value)> = INFO.iter().map(|(k, n)| (*k, if *n { json!(7) } else { json!("x") })).collect();
                        f[5].1 = json!(s);
                        let w = f.iter().map(|(_, v)| v.as_str().map(String::from).unwrap_or_else(|| v.to_string())).collect();
                        (0, 200, object(&f), Want::Is(R::Success(w)))
                    }
                    1 => {
                        let mut f: Vec<(&str, Value)> = ACCOUNT.iter().map(|(k, n)| (*k, if *n { json!(7) } else { json!("x") })).collect();
                        f[4].1 = json!(s);
                        let w = f.iter().map(|(_, v)| v.as_str().map(String::from).unwrap_or_else(|| v.to_string())).collect();
                        (1, 200, object(&f), Want::Is(R::Success(w)))
                    }
                    2 => (4, 200, object(&[("okay", json!(true)), ("result", json!(s))]), Want::Is(R::Success(vec!["true".into(), s]))),
                    3 => (4, 200, object(&[("okay", json!(false)), ("cause", json!(s))]), Want::Is(R::Node(vec!["false".into(), s]))),
                    4 => (3, 400, object(&[("error", json!("e")), ("reason", json!(s)), ("txid", json!("t"))]), Want::Is(R::Node(vec!["e".into(), s, "t".into()]))),
                    5 => (2, 400, s.clone(), Want::Is(R::Node(vec![s]))),
                    _ => {
                        let k = n.min(4000);
                        let all: Vec<Value> = (0..k).map(|x| json!({"fee": x, "fee_rate": 0.5})).collect();
                        let w = (0..k).flat_map(|x| [x.to_string(), "0.5".into()]).collect();
                        (2, 200, json!({"estimations": all}).to_string(), Want::Is(R::Success(w)))
                    }
                };
                c.state(format!("{e} {st} {n}").as_bytes());
                judge(c, &client(), &endpoint(e), &[Reply::Bytes(http(st, body.as_bytes(), fr, ""))], w, &format!("{st} with {n} characters (framing {fr})"))
                    .map_err(|e| short(&e))
            }),
            stage("text-characters", odd_chars().len() as u64 * 7 * 3 * 2, format!("answers of 7 kinds whose text fields hold each of {} characters alone, at either end and in the middle, plain and escaped", odd_chars().len()), move |c, i| {
                let (kind, i) = (i % 7, i / 7);
                let (esc, i) = (i % 2 == 1, i / 2);
                let ch = odd_chars()[(i / 3) as usize];
                let s = match i % 3 {
                    0 => ch.to_string(),
                    1 => format!("{ch}a{ch}b{ch}"),
                    _ => format!("{ch}{ch}x"),
                };
                // the texts of one answer differ in length, so that none can stand for another
                let text = |k: usize| format!("{s}{}{s}", "-".repeat(k));
                let quote = |t: &str| {
                    if esc {
                        format!("\"{}\"", t.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>())
                    } else {
                        json!(t).to_string()
                    }
                };
                let of = |f: &[(&str, bool)]| {
                    let b: Vec<String> = f.iter().enumerate().map(|(k, (n, num))| format!("\"{n}\":{}", if *num { "7".into() } else { quote(&text(k)) })).collect();
                    let w = f.iter().enumerate().map(|(k, (_, num))| if *num { "7".into() } else { text(k) }).collect::<Vec<_>>();
                    (format!("{{{}}}", b.join(",")), w)
                };
                let (e, st, body, w) = match kind {
                    0 => {
                        let (b, w) = of(&INFO);
                        (0, 200, b, Want::Is(R::Success(w)))
                    }
                    1 => {
                        let (b, w) = of(&ACCOUNT);
                        (1, 200, b, Want::Is(R::Success(w)))
                    }
                    2 => (4, 200, format!("{{\"okay\":true,\"result\":{}}}", quote(&s)), Want::Is(R::Success(vec!["true".into(), s]))),
                    3 => (4, 200, format!("{{\"okay\":false,\"cause\":{}}}", quote(&s)), Want::Is(R::Node(vec!["false".into(), s]))),
                    4 => {
                        let (b, w) = of(&REJECT);
                        (3, 400 + i % 100, b, Want::Is(R::Node(w)))
                    }
                    5 => (2, 400 + i % 100, s.clone(), Want::Is(R::Node(vec![s]))),
                    _ => {
                        let b = quote(&s);
                        let w = broadcast_ok(&b);
                        (3, 200, b, w)
                    }
                };
                go(c, e, st, &body, 0, w)
            }),
            stage("fee-rejections", 12, "texts of a rejected fee estimate", move |c, i| {
                let body = ["", "text", "{}", REJECTION, "é\n\r\t", "{\"estimations\":[]}"][(i % 6) as usize];
                let body = if i >= 6 { body.repeat(500) } else { body.to_string() };
                go(c, 2, 400 + i, &body, 0, rejected(2, &body))
            }),
            stage("broadcast-ids", 5 * 3, "texts of an accepted broadcast x 3 framings", move |c, i| {
                let body = [std::str::from_utf8(good_text()).unwrap(), "\"ab\"", "abcd", "\"a\\u0041\"", "\"0x00\""][(i % 5) as usize];
                go(c, 3, 200, body, i / 5, broadcast_ok(body))
            }),
            stage("faults", ENDPOINTS * nf, format!("5 calls x {nf} transport faults"), move |c, i| {
                let (e, f) = (i % ENDPOINTS, (i / ENDPOINTS) as usize);
                let (name, fault) = faults(&success_body(e))[f].clone();
                let w = if e == 3 && name == "chunked body cut" {
                    // the HTTP library takes this for the end of the text, and any text is an id
                    let all = success_body(e);
                    Want::OneOf((0..all.len()).map(|n| R::Success(vec![all[..n].into()])).chain([R::Fail]).collect())
                } else {
                    Want::Is(R::Fail)
                };
                judge(c, &client(), &endpoint(e), &[fault], w, name)
            }),
            stage("refused", ENDPOINTS, "5 calls to a port nobody listens on", move |c, i| {
                let (fd, port) = mock::closed_port();
                let rpc = StacksRPC::new(format!("http://127.0.0.1:{port}"));
                let call = endpoint(i);
                let r = c.sut("call", || outcome(&rpc, &call))?;
                drop(fd);
                c.same(&format!("{call:?} without a server"), &r, &R::Fail)
            }),
            stage("alternations", ev * ev, format!("all ordered pairs of the {ev} (call, event) steps, alternating 24 times on one client"), move |c, i| {
                let rpc = client();
                for n in 0..24 {
                    let x = if n % 2 == 0 { i % ev } else { i / ev };
                    let (e, k) = (x % ENDPOINTS, x / ENDPOINTS);
                    let (r, w, name) = event(e, k);
                    judge(c, &rpc, &endpoint(e), &[r], w, &name).map_err(|m| format!("step {n}: {m}"))?;
                }
                Ok(())
            }),
            stage("histories", ev.pow(depth), format!("all sequences of {depth} (call, event) steps on one client, events: success, rejection, failing node, closed connection"), move |c, i| {
                let rpc = client();
                let mut i = i;
                let mut past = vec![];
                for _ in 0..depth {
                    let (e, k) = (i % ENDPOINTS, i / ENDPOINTS % 4);
                    i /= ev;
                    let (r, w, name) = event(e, k);
                    judge(c, &rpc, &endpoint(e), &[r], w, &name).map_err(|m| format!("after {past:?}: {m}"))?;
                    past.push((e, k));
                }
                Ok(())
            }),
        ],
        isolated: vec![],
    }
}

fn main() {
    std::process::exit(run_main(vec![("C19", c19), ("C20", c20)]));
}
