//! C25: upgrades. From older releases with what they left behind, and to the same code in the middle of things.
use super::gates::{full, Full};
use super::forks::STATE;
use super::*;
use crate::ensure;
use crate::vm::Code;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;

/// releases whose state the contract can be upgraded from, as kept in the repository
const FROM: [&str; 9] = ["v172", "v192", "v193", "v196", "v1910", "v1911", "v1914", "v1916", "v1917"];

fn release(v: &str) -> Vec<u8> {
    let dir = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let f = if v == "v1917" { "ref_exchange_release.wasm".to_string() } else { format!("ref_exchange_release_{}.wasm", v) };
    let p = format!("{}/releases/{}", dir, f);
    std::fs::read(&p).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", p, e);
        std::process::exit(3)
    })
}
thread_local! {
    static OLD: RefCell<BTreeMap<String, Ex>> = RefCell::new(BTreeMap::new());
}
fn old(v: &str) -> Ex {
    OLD.with(|b| b.borrow_mut().entry(v.into()).or_insert_with(|| Ex::build(Code::compile(&release(v)), false)).clone())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum O {
    Deposit { who: u8, tok: u8, a: u16 },
    Withdraw { who: u8, tok: u8, a: u16, unreg: bool },
    Add { who: u8, pool: u8, a: u16 },
    Remove { who: u8, pool: u8, a: u16 },
    Swap { who: u8, pool: u8, i: u8, a: u16 },
    Mft { who: u8, to: u8, pool: u8, a: u16 },
    Reg { who: u8, mask: u8, on: bool },
    Stor { who: u8, milli: u16 },
    Lock { who: u8, pool: u8, burrow: bool },
    Admin { k: u8, x: u16 },
    Block { who: u8, on: bool },
    Wait { secs: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Past {
    from: u8,
    setup: Setup,
    ops: Vec<O>,
    /// accounts that were last written in a form of long ago, and which of their tokens remained in it
    ancient: Vec<(u8, bool, u8)>,
    then: Vec<Op>,
}

fn part(x: u128, a: u16) -> u128 {
    if a == u16::MAX { x } else { mul_div(x, a as u128, 65_536) }
}
fn tokens_of(e: &Ex, p: usize) -> Vec<String> {
    e.v("get_pool", json!({ "pool_id": p }))["token_account_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
/// one operation on an old release; refusals are as good as anything
fn run_old(e: &mut Ex, o: &O) {
    let dep = |e: &Ex, w: &str, t: &str| num(&e.v("get_deposit", json!({"account_id": w, "token_id": t})));
    let held = |e: &Ex, w: &str, p: usize| num(&e.v("get_pool_shares", json!({"account_id": w, "pool_id": p})));
    match o {
        O::Deposit { who, tok: t, a } => {
            let (w, t) = (actor(*who), tok(*t as usize));
            let x = part(e.ft(t.id, w), *a) / 50 + 1;
            e.w.tx_drain(w, t.id, "ft_transfer_call", json!({"receiver_id": EX, "amount": x.to_string(), "msg": ""}), 1);
        }
        O::Withdraw { who, tok: t, a, unreg } => {
            let (w, t) = (actor(*who), tok(*t as usize));
            let x = part(dep(e, w, t.id), *a);
            e.w.tx_drain(w, EX, "withdraw", json!({"token_id": t.id, "amount": x.to_string(), "unregister": unreg}), 1);
        }
        O::Add { who, pool, a } => {
            let (w, p) = (user(*who), *pool as usize % POOLS);
            let simple = e.v("get_pool", json!({ "pool_id": p }))["pool_kind"] == "SIMPLE_POOL";
            let base = [100u128, 10_000, 1_000_000, 3_000_000, 1_000][*a as usize % 5];
            let x: Vec<u128> = tokens_of(e, p).iter().enumerate().map(|(i, t)| units(t, base) / [1, 3, 7][(*a as usize / 5 + i) % 3]).collect();
            let m = if simple { "add_liquidity" } else { "add_stable_liquidity" };
            let r = e.w.tx_drain(w, EX, m, json!({"pool_id": p, "amounts": us(&x), "min_shares": "0"}), NEAR / 100);
            let _ = r;
        }
        O::Remove { who, pool, a } => {
            let (w, p) = (user(*who), *pool as usize % POOLS);
            let x = part(held(e, w, p), *a);
            let n = tokens_of(e, p).len();
            e.w.tx_drain(w, EX, "remove_liquidity", json!({"pool_id": p, "shares": x.to_string(), "min_amounts": us(&vec![0; n])}), 1);
        }
        O::Swap { who, pool, i, a } => {
            let (w, p) = (user(*who), *pool as usize % POOLS);
            let ts = tokens_of(e, p);
            let (i, j) = (*i as usize % ts.len(), (*i as usize / 4 + 1 + *i as usize) % ts.len());
            let x = part(dep(e, w, &ts[i]), *a) / 3000;
            e.w.tx_drain(w, EX, "swap", json!({"actions": [{"pool_id": p, "token_in": ts[i], "token_out": ts[j], "amount_in": x.to_string(), "min_amount_out": "0"}], "referral_id": REFER}), 1);
        }
        O::Mft { who, to, pool, a } => {
            let (w, t, p) = (user(*who), user(*to), *pool as usize % POOLS);
            let x = part(held(e, w, p), *a);
            let id = format!(":{}", p);
            e.w.tx_drain(w, EX, "mft_register", json!({"token_id": id, "account_id": t}), NEAR / 100);
            e.w.tx_drain(w, EX, "mft_transfer", json!({"token_id": id, "receiver_id": t, "amount": x.to_string()}), 1);
        }
        O::Reg { who, mask, on } => {
            let ids: Vec<&str> = TOKENS.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, t)| t.id).collect();
            e.w.tx_drain(actor(*who), EX, if *on { "register_tokens" } else { "unregister_tokens" }, json!({ "token_ids": ids }), 1);
        }
        O::Stor { who, milli } => {
            if milli % 2 == 0 {
                e.w.tx_drain(actor(*who), EX, "storage_deposit", json!({}), *milli as u128 * pow10(20));
            } else {
                e.w.tx_drain(actor(*who), EX, "storage_withdraw", json!({"amount": (*milli as u128 * pow10(19)).to_string()}), 1);
            }
        }
        O::Lock { who, pool, burrow } => {
            let k = if *burrow { "ToBurrowland" } else { "ToFarming" };
            let p = *pool as usize % POOLS;
            let x = held(e, user(*who), p) / 3;
            e.w.tx_drain(user(*who), EX, "shadow_action", json!({"action": k, "pool_id": p, "amount": x.to_string(), "msg": ""}), NEAR / 50);
        }
        O::Admin { k, x } => {
            let (m, a) = match k % 8 {
                0 => ("extend_frozenlist_tokens", json!({"tokens": [tok(*x as usize).id]})),
                1 => ("insert_referral", json!({"referral_id": user(*x as u8), "fee_bps": 1 + *x as u32 % 9000})),
                2 => ("register_pool_twap_record", json!({"pool_id": *x as usize % POOLS})),
                3 => ("extend_whitelisted_tokens", json!({"tokens": [tok(*x as usize).id]})),
                4 => ("extend_guardians", json!({"guardians": [user(*x as u8)]})),
                5 => ("add_degen_pool_limit", json!({"pool_id": 5 + (*x & 1) * 4, "degen_pool_limit_info": {"tvl_limit": x.to_string()}})),
                6 => ("change_state", json!({"state": "Paused"})),
                _ => ("modify_admin_fee", json!({"admin_fee_bps": *x as u32 % 8000})),
            };
            e.w.tx_drain(OWNER, EX, m, a, 1);
        }
        O::Block { who, on } => {
            for t in TOKENS {
                let b = &mut e.w.model_mut(t.id).token_mut().blocked;
                if *on {
                    b.insert(actor(*who).to_string());
                } else {
                    b.clear();
                }
            }
        }
        O::Wait { secs } => e.w.now += *secs as u64 * 1_000_000_000,
    }
}
fn refresh(e: &mut Ex) {
    e.sync_prices();
    for t in [WRAP, "eth.bridge.near", "usdc.near", "dai.near"] {
        e.w.tx_drain(OWNER, EX, "update_degen_token_price", json!({ "token_id": t }), 0);
    }
}

// ---- what long gone releases left behind

fn put(e: &mut Ex, k: Vec<u8>, v: Option<Vec<u8>>) {
    let w = std::sync::Arc::make_mut(e.w.wasm.get_mut(EX).unwrap());
    if let Some(o) = w.storage.remove(&k) {
        w.usage -= (k.len() + o.len() + 40) as u64;
    }
    if let Some(v) = v {
        w.usage += (k.len() + v.len() + 40) as u64;
        w.storage.insert(k, v);
    }
}
fn borsh(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u32).to_le_bytes().to_vec();
    v.extend(s.as_bytes());
    v
}
/// Writes an account of release 1.7.2 as 1.1.0 (all tokens in one map) or 1.2.0 (some tokens still there) left it.
/// The layout is that of those releases, which does not change any more.
fn antiquate(e: &mut Ex, who: &str, first: bool, mask: u8) -> Vec<String> {
    let key = [&[1u8][..], &borsh(who)].concat();
    let v = e.w.wasm[EX].storage[&key].clone();
    assert!(v[0] == 1, "not an account of 1.7.2");
    let near = v[1..17].to_vec();
    assert!(v[17..21] == [0, 0, 0, 0], "tokens of old");
    let rest = v[21..].to_vec();
    let used = v[v.len() - 8..].to_vec();
    let dep: BTreeMap<String, u128> = map_num(&e.v("get_deposits", json!({ "account_id": who })));
    let moved: Vec<String> = dep.keys().enumerate().filter(|(i, _)| first || mask & (1 << i) != 0).map(|(_, t)| t.clone()).collect();
    let mut map = (moved.len() as u32).to_le_bytes().to_vec();
    for t in &moved {
        map.extend(borsh(t));
        map.extend(dep[t].to_le_bytes());
    }
    if first {
        let prefix = [&[5u8][..], &borsh(who)].concat();
        let gone: Vec<Vec<u8>> = e.w.wasm[EX].storage.keys().filter(|k| k.starts_with(&prefix)).cloned().collect();
        for k in gone {
            put(e, k, None);
        }
        put(e, key, Some([&[0u8][..], &near, &map, &used].concat()));
    } else {
        // out of the newer map, the way that release would do it
        let before = e.w.clone();
        for t in &moved {
            let r = e.w.tx_drain(who, EX, "withdraw", json!({"token_id": t, "amount": "0", "unregister": true}), 1);
            let r2 = e.w.tx_drain(who, EX, "unregister_tokens", json!({ "token_ids": [t] }), 1);
            if !(r.iter().all(|x| x.ok()) || r2[0].ok()) || e.v("get_deposits", json!({ "account_id": who })).get(t).is_some() {
                e.w = before;
                return vec![];
            }
        }
        let v = e.w.wasm[EX].storage[&key].clone();
        put(e, key, Some([&[1u8][..], &near, &map, &v[21..]].concat()));
        let _ = rest;
        // the tokens themselves never left
        for t in &moved {
            let m = e.w.model_mut(t).token_mut();
            let got = dep[t];
            *m.bal.get_mut(who).unwrap() -= got;
            m.mint(EX, got);
        }
    }
    moved
}

// ---- what can be seen

fn views(e: &Ex) -> Vec<(String, Value)> {
    let mut q: Vec<(&str, Value)> = vec![];
    for m in ["metadata", "get_number_of_pools", "get_whitelisted_tokens", "get_frozenlist_tokens", "get_guardians", "get_owner", "list_rated_tokens", "list_degen_tokens", "list_degen_oracle_configs", "get_client_echo_token_id_whitelist", "get_client_echo_sender_id_whitelist", "get_secure_sender_whitelist", "storage_balance_bounds"] {
        q.push((m, json!({})));
    }
    for m in ["list_referrals", "get_pool_limit_paged", "list_pool_twap_info_view"] {
        q.push((m, json!({"from_index": 0, "limit": 100})));
    }
    q.push(("get_pools", json!({"from_index": 0, "limit": 100})));
    for h in HOLDERS {
        for m in ["get_deposits", "storage_balance_of", "get_user_storage_state", "get_user_whitelisted_tokens", "get_shadow_records"] {
            q.push((m, json!({ "account_id": h })));
        }
    }
    for p in 0..POOLS {
        for m in ["get_pool_fee", "get_pool_share_price", "get_stable_pool", "get_rated_pool", "get_degen_pool", "get_pool_total_shares", "get_pool_twap_info_view", "get_degen_pool_tvl"] {
            q.push((m, json!({ "pool_id": p })));
        }
        for h in HOLDERS {
            q.push(("get_pool_shares", json!({"pool_id": p, "account_id": h})));
            q.push(("mft_balance_of", json!({"token_id": format!(":{}", p), "account_id": h})));
            q.push(("mft_has_registered", json!({"token_id": format!(":{}", p), "account_id": h})));
        }
        let ts = tokens_of(e, p);
        for i in 0..ts.len() {
            let j = (i + 1) % ts.len();
            q.push(("get_return", json!({"pool_id": p, "token_in": ts[i], "token_out": ts[j], "amount_in": units(&ts[i], 3).to_string()})));
        }
    }
    q.into_iter().filter_map(|(m, a)| e.tv(m, a.clone()).ok().map(|v| (format!("{} {}", m, a), v))).collect()
}
/// everything in `a` is still so in `b`
fn kept(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.iter().all(|(k, v)| k == "version" || y.get(k).map_or(false, |w| kept(v, w))),
        (Value::Array(x), Value::Array(y)) => {
            // sets come in any order
            let strings = x.iter().all(|v| v.is_string()) && x.iter().any(|v| v.as_str().map_or(false, |s| s.parse::<u128>().is_err()));
            if strings {
                let s = |l: &Vec<Value>| {
                    let mut v: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                    v.sort();
                    v
                };
                return s(x) == s(y);
            }
            x.len() == y.len() && x.iter().zip(y).all(|(v, w)| kept(v, w))
        }
        _ => a == b,
    }
}

fn upgrade(e: &mut Ex, who: &str, code: &[u8]) -> bool {
    let r = e.w.tx_raw(who, EX, "upgrade", code.to_vec(), 0);
    let mine = r.id;
    // only what this transaction caused
    let mut ok = r.ok();
    let mut ids = r.spawned.clone();
    let _ = mine;
    while let Some(id) = ids.pop() {
        if e.w.pending.iter().any(|x| x.id == id) {
            let x = e.w.step_id(id);
            ok &= x.ok();
            ids.extend(x.spawned.clone());
        }
    }
    ok
}

fn past(c: &Past, st: &mut Stats) -> Res {
    let v = FROM[c.from as usize % FROM.len()];
    let mut e = old(v);
    e.add_pools(&c.setup);
    for i in 0..POOLS {
        e.w.tx(OWNER, EX, "mft_register", json!({"token_id": format!(":{}", i), "account_id": REFER}), NEAR);
    }
    e.w.tx_drain(OWNER, EX, "modify_admin_fee", json!({"admin_fee_bps": c.setup.admin_fee}), 1);
    e.set_rates(c.setup.rate, c.setup.price);
    refresh(&mut e);
    for (p, l) in c.setup.liq.iter().enumerate() {
        if *l > 0 {
            run_old(&mut e, &O::Add { who: 3, pool: p as u8, a: *l });
        }
    }
    for o in &c.ops {
        run_old(&mut e, o);
    }
    let mut ancient = vec![];
    if v == "v172" {
        for (who, first, mask) in &c.ancient {
            let w = user(*who);
            if ancient.iter().all(|(x, _)| *x != w) {
                let m = antiquate(&mut e, w, *first, *mask);
                if !m.is_empty() {
                    ancient.push((w, m));
                }
            }
        }
    }
    for t in TOKENS {
        e.w.model_mut(t.id).token_mut().blocked.clear();
    }
    refresh(&mut e);
    e.w.drain();
    let before = views(&e);
    let gaps = |e: &Ex, s: &Snap| -> Vec<i128> { TOKENS.iter().map(|t| super::c01::gap(e, s, t.id).0).collect() };
    let new = code("ref_exchange").wasm().to_vec();
    // nobody else can
    for who in [GUARD, "alice.near"] {
        let store = e.w.wasm[EX].storage.clone();
        ensure!(!upgrade(&mut e, who, &new) && e.w.wasm[EX].storage == store, "upgraded-by-anybody", "{} upgrades", who);
    }
    if v == "v172" {
        // by way of 1.8.0 and 1.9.0, of which the latter only added two settings to the root
        ensure!(upgrade(&mut e, OWNER, &release("v180")), "harness", "to 1.8.0");
        let mut root = e.w.wasm[EX].storage[&b"STATE"[..]].clone();
        root.extend([0, 0, 0, 0, 0]);
        put(&mut e, b"STATE".to_vec(), Some(root));
        std::sync::Arc::make_mut(e.w.wasm.get_mut(EX).unwrap()).code = Code::compile(&release("v191"));
    }
    ensure!(upgrade(&mut e, OWNER, &new), "upgrade-fails", "from {}", v);
    if v == "v172" {
        e.must(OWNER, "modify_boost_farm_id", json!({ "boost_farm_id": FARM }), 1);
        e.must(OWNER, "modify_burrowland_id", json!({ "burrowland_id": BURROW }), 1);
    }
    if v == "v172" {
        e.must(OWNER, "modify_wnear_id", json!({ "wnear_id": WRAP }), 1);
    }
    for (q, a) in &before {
        let (m, args) = q.split_once(' ').unwrap();
        let b = e.tv(m, serde_json::from_str(args).unwrap());
        ensure!(b.as_ref().map_or(false, |b| kept(a, b)), &format!("changed:{}", m), "after the upgrade from {} {} is {:?}, was {}; accounts of long ago: {:?}", v, q, b, a, ancient);
    }
    st.label(&format!("upgraded from {}", v));
    st.add("views compared", before.len() as u64);
    if !ancient.is_empty() {
        st.label("with accounts of long ago");
    }
    // and on it goes
    if e.v("metadata", json!({}))["state"] != "Running" {
        e.must(OWNER, "change_state", json!({"state": "Running"}), 1);
    }
    let fr = e.v("get_frozenlist_tokens", json!({}));
    if fr != json!([]) {
        e.must(OWNER, "remove_frozenlist_tokens", json!({ "tokens": fr }), 1);
    }
    e.sync_prices();
    let s0 = e.snap(&SNAP_ALL);
    let g0 = gaps(&e, &s0);
    ensure!(g0.iter().all(|g| *g >= 0), "insolvent", "after the upgrade from {}: {:?}", v, g0);
    let mut ws = [super::trade::W::new(super::trade::Focus::Simple), super::trade::W::new(super::trade::Focus::Curve)];
    let mut a = s0;
    for w in ws.iter_mut() {
        w.start(&mut e, &a)?;
    }
    for op in &c.then {
        for w in ws.iter_mut() {
            w.before(&e, op, &a)?;
        }
        let r = e.run(op, true);
        if matches!(op, Op::StorWithdraw { .. }) {
            // balances in the old form take up less storage than in the new, to which they change
            for (w, _) in &ancient {
                e.w.tx(OWNER, EX, "storage_deposit", json!({ "account_id": w }), NEAR / 10);
            }
        }
        let b = e.snap(&SNAP_ALL);
        for w in ws.iter_mut() {
            w.step(&e, op, &r, &a, &b, st)?;
        }
        // accounts and registrations of the others remain
        for (h, m) in &a.dep {
            if r.call.as_ref().map_or(true, |c| c.signer != *h) && *h != OWNER {
                for (t, n) in m {
                    ensure!(b.d(h, t) >= *n || matches!(op, Op::Liquidate { .. }), "bystander", "{} has {} {} after {}, had {}; {}", h, b.d(h, t), t, op_name(op), n, show(&r));
                }
            }
        }
        if let Some(c) = &r.call {
            if ancient.iter().any(|x| x.0 == c.signer) && r.first_ok() {
                st.label(&format!("{} by an account of long ago", op_name(op)));
            }
        }
        for (t, (g, h)) in TOKENS.iter().zip(gaps(&e, &b).iter().zip(&g0)) {
            let unit = if t.dec > 18 { 1_000_000 } else { 1 };
            ensure!(*g >= 0 && *g <= *h + (4 + 8 * c.then.len() as i128) * unit, "insolvent", "{}: {} (at first {}) after {}; {}", t.id, g, h, op_name(op), show(&r));
        }
        a = b;
    }
    let mut l = super::storage::Leave::new();
    for u in ["alice.near", "bob.near", "carol.near", "dave.near"] {
        l.exit(&e, u, &a, st)?;
    }
    if !before.is_empty() && (!c.ops.is_empty() || !ancient.is_empty()) {
        st.hit();
    }
    Ok(())
}

// ---- the same code again, at any time

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    h: Hist,
    upgrader: u8,
    bad: u8,
    then: Vec<Op>,
}
fn again(c: &Again, st: &mut Stats) -> Res {
    let mut e = Ex::with(&c.h.setup);
    for op in &c.h.ops {
        e.run(op, false);
    }
    let flying = e.w.pending.len();
    let code = code("ref_exchange").wasm().to_vec();
    let mut f = e.clone();
    // something that cannot be the contract
    let junk: Vec<u8> = match c.bad % 5 {
        0 => vec![],
        1 => b"\0asm".to_vec(),
        2 => std::fs::read(WASM_DIR.with(|d| format!("{}/ref_farming.wasm", d.borrow()))).unwrap_or_default(),
        3 => code[..code.len() / 2].to_vec(),
        _ => release("v172"),
    };
    let who = ["alice.near", GUARD, BOT, FARM, EX][c.upgrader as usize % 5];
    if who != EX {
        ensure!(!upgrade(&mut f, who, &code), "upgraded-by-anybody", "{} upgrades", who);
        let r = f.w.tx(who, EX, "migrate", json!({}), 0);
        ensure!(!r.ok(), "migrated-by-anybody", "{} migrates", who);
    }
    let r = f.w.tx(OWNER, EX, "migrate", json!({}), 0);
    ensure!(!r.ok(), "migrated-by-anybody", "the owner migrates by hand");
    if c.bad % 5 >= 1 {
        ensure!(!upgrade(&mut f, OWNER, &junk), "bad-code", "code {} is taken", c.bad % 5);
        ensure!(f.w.wasm[EX].code.wasm() == &code[..] && f.w.wasm[EX].storage == e.w.wasm[EX].storage, "bad-code", "a failed upgrade has effects");
        st.label("failed upgrades undone");
    }
    ensure!(upgrade(&mut f, OWNER, &code), "upgrade-fails", "to the same code");
    let cmp = |e: &Ex, f: &Ex, what: &str| -> Res {
        let (mut a, b): (Full, Full) = (full(e), full(f));
        a.near = b.near.clone();
        ensure!(a == b, "differs", "{}, with an upgrade in between: {}", what, super::gates::fdiff(&a, &b));
        for (x, y) in views(e).iter().zip(views(f)) {
            ensure!(*x == y, "differs", "{}, with an upgrade in between: {:?} instead of {:?}", what, y, x);
        }
        Ok(())
    };
    cmp(&e, &f, "at once")?;
    for op in &c.then {
        let (x, y) = (e.run(op, false), f.run(op, false));
        if let (Some(p), Some(q)) = (x.executed.first(), y.executed.first()) {
            ensure!(p.result == q.result, "differs", "{} with an upgrade before: {:?} instead of {:?}", op_name(op), q.result, p.result);
        }
    }
    e.w.drain();
    f.w.drain();
    cmp(&e, &f, "in the end")?;
    if flying > 0 {
        st.label("with calls under way");
        st.hit();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Past(Past),
    Again(Again),
}

pub fn defs() -> Vec<Def> {
    let who = || 0u8..7;
    let _ = who;
    vec![def(
        "C25",
        "a history on an older release (kept in the repository), some accounts in a form of long ago, then the upgrade: all views compared, further operations against the exact model, exits; or an upgrade to the same code amid a history with calls under way, beside the same history without; non-trivial: the older release had a history, or calls were under way",
        250,
        20_000,
        || {
            let x = || prop_oneof![1 => Just(u16::MAX), 6 => any::<u16>()];
            let o = prop_oneof![
                3 => (0u8..7, any::<u8>(), x()).prop_map(|(who, tok, a)| O::Deposit { who, tok, a }),
                3 => (0u8..7, any::<u8>(), x(), any::<bool>()).prop_map(|(who, tok, a, unreg)| O::Withdraw { who, tok, a, unreg }),
                4 => (any::<u8>(), any::<u8>(), x()).prop_map(|(who, pool, a)| O::Add { who, pool, a }),
                3 => (any::<u8>(), any::<u8>(), x()).prop_map(|(who, pool, a)| O::Remove { who, pool, a }),
                6 => (any::<u8>(), any::<u8>(), any::<u8>(), x()).prop_map(|(who, pool, i, a)| O::Swap { who, pool, i, a }),
                2 => (any::<u8>(), any::<u8>(), any::<u8>(), x()).prop_map(|(who, to, pool, a)| O::Mft { who, to, pool, a }),
                2 => (0u8..7, any::<u8>(), any::<bool>()).prop_map(|(who, mask, on)| O::Reg { who, mask, on }),
                2 => (0u8..7, 0u16..20_000).prop_map(|(who, milli)| O::Stor { who, milli }),
                3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(who, pool, burrow)| O::Lock { who, pool, burrow }),
                3 => (any::<u8>(), any::<u16>()).prop_map(|(k, x)| O::Admin { k, x }),
                1 => (0u8..7, any::<bool>()).prop_map(|(who, on)| O::Block { who, on }),
                1 => (0u32..5_000).prop_map(|secs| O::Wait { secs }),
            ];
            let then = || mix(&[(4, G::Deposit), (5, G::Withdraw), (3, G::Reg), (2, G::Stor), (3, G::Add), (3, G::AddStable), (3, G::Remove), (2, G::RemoveBy), (6, G::Swap), (2, G::SwapOut), (3, G::Instant), (2, G::Zap), (2, G::MftPool), (2, G::Shadow), (2, G::DonateToken)]);
            let past = (any::<u8>().prop_map(|x| if x < 100 { 0 } else { x }), setup(), prop::collection::vec(o, 0..25), prop::collection::vec((0u8..4, prop::bool::weighted(0.4), any::<u8>()), 0..4), prop::collection::vec(then(), 2..12))
                .prop_map(|(from, setup, ops, ancient, then)| Case::Past(Past { from, setup, ops, ancient, then }));
            let mut m = STATE.to_vec();
            m.extend([(4, G::Withdraw), (4, G::Instant), (4, G::MftTok), (4, G::Shadow), (2, G::Liquidate), (2, G::FaultTok), (1, G::FaultHost), (5, G::Step), (1, G::Pause), (1, G::Freeze), (1, G::White), (1, G::Echo)]);
            let again = (hist(&m, 2..20), any::<u8>(), any::<u8>(), prop::collection::vec(mix(&m), 1..6)).prop_map(|(h, upgrader, bad, then)| Case::Again(Again { h, upgrader, bad, then }));
            prop_oneof![3 => past, 2 => again].boxed()
        },
        |c: &Case, st| match c {
            Case::Past(p) => past(p, st),
            Case::Again(a) => again(a, st),
        },
    )]
}
