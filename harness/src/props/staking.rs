//! C49: shares of the real exchange, staked in the real farming contract.
use super::farm::FA;
use super::*;
use crate::ensure;
use crate::vm::{Action, PromiseRes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum So {
    Stake { who: u8, pool: u8, a: Amt, all: bool },
    Unstake { who: u8, pool: u8, a: Amt },
    /// plain transfer of shares to the farming contract
    Give { who: u8, pool: u8, a: Amt },
    ClaimSeed { who: u8, pool: u8 },
    Take { who: u8 },
    Join { who: u8 },
    Leave { who: u8 },
    Drop { who: u8, pool: u8 },
    ShareReg { who: u8, pool: u8, on: bool },
    Farm { pool: u8, min: u8 },
    FaPause(bool),
    Wait { secs: u32 },
    Ex(Op),
    Step { k: u8, fail: bool },
    Drain,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub setup: Setup,
    /// pools with a farm on their shares from the start
    pub pools: Vec<u8>,
    /// who is registered with the farming contract
    pub reg: u8,
    /// whether the exchange knows the farming contract as an account
    pub known: bool,
    pub eager: bool,
    pub ops: Vec<So>,
}
const RWD: &str = "usdc.near";
const MIN: [u128; 4] = [1, 1_000_000, 1_000_000_000_000_000_000, 10];
fn seed(p: usize) -> String {
    format!("{}@{}", EX, p)
}
fn pid(p: usize) -> String {
    format!(":{}", p)
}

/// who holds what, on both sides
#[derive(Clone, Default, Debug, PartialEq)]
struct S {
    /// the farming contract's shares
    fa: Vec<u128>,
    /// the exchange's own
    ex: Vec<u128>,
    amt: Vec<u128>,
    own: BTreeMap<&'static str, Vec<u128>>,
    stk: BTreeMap<&'static str, Vec<u128>>,
    /// on the way from one side to the other
    fly: BTreeMap<(String, usize), u128>,
}
fn pool_no(s: &str) -> usize {
    s.rsplit(|c| c == ':' || c == '@').next().unwrap().parse().unwrap_or(usize::MAX)
}
fn shares(e: &Ex, who: &str) -> Vec<u128> {
    let ids: Vec<usize> = (0..POOLS).collect();
    nums(&e.v("get_pool_shares_batch", json!({"pool_ids": ids, "account_id": who})))
}
fn fv(e: &Ex, m: &str, a: Value) -> Value {
    e.w.view(FA, m, a.clone()).unwrap_or_else(|x| panic!("view {} {} fails: {}", m, a, x))
}
fn flying(e: &Ex) -> BTreeMap<(String, usize), u128> {
    let mut m = BTreeMap::new();
    for r in &e.w.pending {
        for a in &r.actions {
            if let Action::Call { method, args, .. } = a {
                let v: Value = serde_json::from_slice(args).unwrap_or_default();
                let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
                let input = r.inputs.first().and_then(|i| e.w.data.get(i));
                let mut add = |who: String, id: String, x: u128| *m.entry((who, pool_no(&id))).or_insert(0) += x;
                match method.as_str() {
                    "mft_on_transfer" if r.receiver == FA && r.predecessor == EX => add(s("sender_id"), s("token_id"), num(&v["amount"])),
                    "mft_resolve_transfer" if r.receiver == EX && s("receiver_id") == FA => {
                        let x = num(&v["amount"]);
                        let back = match input {
                            None => 0,
                            Some(PromiseRes::Failed) => x,
                            Some(PromiseRes::Ok(b)) => serde_json::from_slice::<Value>(b).ok().and_then(|v| v.as_str().and_then(|s| s.parse::<u128>().ok())).unwrap_or(x).min(x),
                        };
                        add(s("sender_id"), s("token_id"), back);
                    }
                    "mft_transfer" if r.receiver == EX && r.predecessor == FA => add(s("receiver_id"), s("token_id"), num(&v["amount"])),
                    "callback_post_withdraw_mft_seed" if r.receiver == FA && r.predecessor == FA => {
                        if let Some(PromiseRes::Failed) = input {
                            add(s("sender_id"), s("seed_id"), num(&v["amount"]));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    m.retain(|_, x| *x > 0);
    m
}
fn snap(e: &Ex) -> S {
    let mut s = S { fa: shares(e, FA), ex: shares(e, EX), amt: vec![0; POOLS], ..Default::default() };
    for (k, v) in fv(e, "list_seeds_info", json!({"from_index": 0, "limit": 100})).as_object().unwrap() {
        s.amt[pool_no(k)] = num(&v["amount"]);
    }
    for u in ACTORS {
        s.own.insert(u, shares(e, u));
        let mut v = vec![0; POOLS];
        for (k, x) in map_num(&fv(e, "list_user_seeds", json!({ "account_id": u }))) {
            v[pool_no(&k)] = x;
        }
        s.stk.insert(u, v);
    }
    s.fly = flying(e);
    s
}
fn make_farm(e: &mut Ex, p: usize, min: u8) {
    let t = json!({"seed_id": seed(p), "reward_token": RWD, "start_at": 0, "reward_per_session": "1000000", "session_interval": 60});
    let r = e.w.tx(OWNER, FA, "create_simple_farm", json!({"terms": t, "min_deposit": MIN[min as usize % 4].to_string()}), NEAR);
    assert!(r.ok(), "no farm: {:?}", r.result);
    let id = r.json().as_str().unwrap().to_string();
    let r = e.w.tx_drain(OWNER, RWD, "ft_transfer_call", json!({"receiver_id": FA, "amount": "5000000000", "msg": id}), 1);
    assert!(r.iter().all(|x| x.ok()), "no reward: {:?}", r);
}
fn begin(c: &Case) -> Ex {
    let mut e = Ex::with(&c.setup);
    e.w.deploy(FA, code("ref_farming"), 20 * NEAR);
    let r = e.w.tx(OWNER, FA, "new", json!({ "owner_id": OWNER }), 0);
    assert!(r.ok(), "initialisation: {:?}", r.result);
    e.w.model_mut(RWD).token_mut().mint(FA, 0);
    for (k, u) in ACTORS.iter().enumerate() {
        if c.reg >> k & 1 == 1 {
            assert!(e.w.tx(u, FA, "storage_deposit", json!({}), NEAR).ok());
        }
    }
    if c.known {
        e.must(OWNER, "storage_deposit", json!({ "account_id": FA }), NEAR);
    }
    for p in &c.pools {
        let p = *p as usize % POOLS;
        make_farm(&mut e, p, 0);
        e.share_reg(p, FA);
        for u in &ACTORS[..4] {
            e.share_reg(p, u);
        }
        // the first provider passes some on
        for (k, u) in USERS[..3].iter().enumerate() {
            let have = e.shares_of(USERS[3], p as u64);
            if have > 100 {
                e.must(USERS[3], "mft_transfer", json!({"token_id": pid(p), "receiver_id": u, "amount": (have / (4 + k as u128)).to_string()}), 1);
            }
        }
    }
    e
}

type Rr = Option<(bool, Executed)>;
fn pools_with_farm(e: &Ex) -> Vec<usize> {
    let mut v: Vec<usize> = fv(e, "list_seeds", json!({"from_index": 0, "limit": 100})).as_object().unwrap().keys().map(|k| pool_no(k)).collect();
    v.sort();
    v
}
/// a pool with a farm, mostly
fn pick(e: &Ex, k: u8) -> usize {
    let v = pools_with_farm(e);
    if k < 200 && !v.is_empty() { v[k as usize % v.len()] } else { k as usize % POOLS }
}
fn run(e: &mut Ex, op: &So) -> Rr {
    let w = |k: u8| actor(k);
    let tx = |e: &mut Ex, who: &str, to: &str, m: &str, a: Value, d: u128| -> Rr { Some((true, e.w.tx(who, to, m, a, d))) };
    match op {
        So::Stake { who, pool, a, all } => {
            let p = pick(e, *pool);
            let who = (0..4).map(|i| w((*who + i) % 7)).find(|u| e.shares_of(u, p as u64) > 0).unwrap_or(w(*who));
            let have = e.shares_of(who, p as u64);
            if *all {
                tx(e, who, EX, "mft_transfer_all_call", json!({"token_id": pid(p), "receiver_id": FA, "msg": ""}), 1)
            } else {
                tx(e, who, EX, "mft_transfer_call", json!({"token_id": pid(p), "receiver_id": FA, "amount": a.of(have, have).to_string(), "msg": ""}), 1)
            }
        }
        So::Unstake { who, pool, a } => {
            let mut p = pick(e, *pool);
            let mut u = w(*who);
            let mut have = 0;
            'find: for i in 0..7u8 {
                let m = map_num(&fv(e, "list_user_seeds", json!({ "account_id": w((*who + i) % 7) })));
                for (k, x) in m {
                    if x > 0 {
                        (u, p, have) = (w((*who + i) % 7), pool_no(&k), x);
                        break 'find;
                    }
                }
            }
            tx(e, u, FA, "withdraw_seed", json!({"seed_id": seed(p), "amount": a.of(have, have).to_string()}), 1)
        }
        So::Give { who, pool, a } => {
            let p = pick(e, *pool);
            let have = e.shares_of(w(*who), p as u64);
            tx(e, w(*who), EX, "mft_transfer", json!({"token_id": pid(p), "receiver_id": FA, "amount": a.of(have, have).to_string()}), 1)
        }
        So::ClaimSeed { who, pool } => {
            let s = seed(pick(e, *pool));
            tx(e, w(*who), FA, "claim_reward_by_seed", json!({ "seed_id": s }), 0)
        }
        So::Take { who } => tx(e, w(*who), FA, "withdraw_reward", json!({"token_id": RWD, "amount": null}), 1),
        So::Join { who } => tx(e, w(*who), FA, "storage_deposit", json!({}), NEAR),
        So::Leave { who } => tx(e, w(*who), FA, "storage_unregister", json!({}), 1),
        So::Drop { who, pool } => {
            let s = format!("{}#0", seed(pick(e, *pool)));
            tx(e, w(*who), FA, "remove_user_rps_by_farm", json!({ "farm_id": s }), 0)
        }
        So::ShareReg { who, pool, on } => {
            let p = pick(e, *pool);
            if *on {
                tx(e, w(*who), EX, "mft_register", json!({"token_id": pid(p), "account_id": w(*who)}), NEAR / 100)
            } else {
                // mostly somebody who has none left
                let idle = |e: &Ex, u: &str, p: usize| e.shares_of(u, p as u64) == 0 && e.v("mft_has_registered", json!({"token_id": pid(p), "account_id": u})) == json!(true);
                let all = pools_with_farm(e);
                let (u, p) = (0..4u8).map(|i| w((*who + i) % 4)).flat_map(|u| all.iter().map(move |p| (u, *p))).find(|(u, p)| idle(e, u, *p)).unwrap_or((w(*who), p));
                tx(e, u, EX, "mft_unregister", json!({ "token_id": pid(p) }), 1)
            }
        }
        So::Farm { pool, min } => {
            let p = *pool as usize % POOLS;
            let t = json!({"seed_id": seed(p), "reward_token": RWD, "start_at": 0, "reward_per_session": "1000000", "session_interval": 60});
            let r = tx(e, OWNER, FA, "create_simple_farm", json!({"terms": t, "min_deposit": MIN[*min as usize % 4].to_string()}), NEAR);
            e.w.tx(OWNER, EX, "mft_register", json!({"token_id": pid(p), "account_id": FA}), NEAR / 100);
            r
        }
        So::FaPause(on) => tx(e, OWNER, FA, if *on { "pause_contract" } else { "resume_contract" }, json!({}), 1),
        So::Wait { secs } => {
            e.w.advance(*secs as u64);
            None
        }
        So::Ex(op) => {
            let r = e.run(op, false);
            r.executed.into_iter().next().map(|x| (true, x))
        }
        So::Step { k, fail } => {
            let rd = e.w.ready();
            let can = !rd.is_empty() && {
                let p = &e.w.pending[rd[*k as usize % rd.len()]];
                // a transfer of the exchange's shares may run out of gas on the way
                p.receiver == EX && p.predecessor == FA
            };
            e.w.step(*k as usize, if *fail && can { Some("injected") } else { None }).map(|x| (false, x))
        }
        So::Drain => None,
    }
}
fn showx(x: &Executed) -> String {
    super::farm::xshow(x)
}
/// between the two contracts, or about shares staked
fn staking(x: &Executed) -> bool {
    let v = x.args_json();
    x.receiver == FA || x.predecessor == FA || (x.receiver == EX && x.method.starts_with("mft_") && (v["receiver_id"] == FA || v["sender_id"] == FA))
}

fn check(c: &Case, st: &mut Stats) -> Res {
    let mut e = begin(c);
    let mut todo: std::collections::VecDeque<So> = Default::default();
    for o in &c.ops {
        todo.push_back(o.clone());
        if c.eager {
            todo.push_back(So::Drain);
        }
    }
    todo.push_back(So::Drain);
    let mut a = snap(&e);
    // shares that are the farming contract's own: given to it
    let mut stuck = vec![0u128; POOLS];
    let (mut moved, mut returned) = (0, 0);
    while let Some(op) = todo.pop_front() {
        if op == So::Drain {
            if !e.w.ready().is_empty() {
                todo.push_front(So::Drain);
                todo.push_front(So::Step { k: 0, fail: false });
            }
            continue;
        }
        let r = run(&mut e, &op);
        let b = snap(&e);
        if let Some((first, x)) = &r {
            if *first {
                st.label(&format!("{} {}", super::farm::fop_name_of(&format!("{:?}", op)), if x.ok() { "ok" } else { "fails" }));
            } else if x.receiver == FA || x.predecessor == FA || x.method == "mft_resolve_transfer" {
                st.label(&format!("{} at {} {}", x.method, x.receiver, if x.ok() { "ok" } else { "fails" }));
            }
            let v = x.args_json();
            let who = v["sender_id"].as_str().unwrap_or("").to_string();
            let mut to_ex: BTreeMap<usize, u128> = BTreeMap::new();
            if x.receiver == EX && x.method == "mft_transfer" && v["receiver_id"] == FA && x.ok() {
                stuck[pool_no(v["token_id"].as_str().unwrap())] += num(&v["amount"]);
            }
            if x.receiver == EX && x.method == "mft_resolve_transfer" && v["receiver_id"] == FA {
                let p = pool_no(v["token_id"].as_str().unwrap());
                let back = a.fly.get(&(who.clone(), p)).copied().unwrap_or(0) - b.fly.get(&(who.clone(), p)).copied().unwrap_or(0);
                ensure!(x.ok(), "refund-refused", "the farming contract did not take {} of :{} and the return to {} fails: {}", back, p, who, showx(x));
                let reg = e.v("mft_has_registered", json!({"token_id": pid(p), "account_id": who})) == json!(true);
                if back > 0 && !(e.registered(&who) && reg) {
                    to_ex.insert(p, back);
                    st.label(if reg { "return to the exchange, sender gone" } else { "return to the exchange, sender cannot take it" });
                }
                if back > 0 && x.ok() {
                    returned += 1;
                }
            }
            if staking(x) {
                // what everybody has, on either side or in between, is what it was
                let give = x.receiver == EX && x.method == "mft_transfer" && v["receiver_id"] == FA && x.ok();
                let none = 0u128;
                for u in ACTORS {
                    for p in 0..POOLS {
                        let f = |s: &S| s.own[u][p] + s.stk[u][p] + s.fly.get(&(u.to_string(), p)).unwrap_or(&none);
                        let gone = if give && u == x.predecessor && pid(p) == v["token_id"].as_str().unwrap() { num(&v["amount"]) } else { 0 };
                        let lost = if u == who && x.method == "mft_resolve_transfer" { to_ex.get(&p).copied().unwrap_or(0) } else { 0 };
                        ensure!(f(&a) == f(&b) + gone + lost, "shares-gained-or-lost", "{}: shares of :{} own {} staked {} under way {} -> {} {} {} by {}", u, p, a.own[u][p], a.stk[u][p], f(&a) - a.own[u][p] - a.stk[u][p], b.own[u][p], b.stk[u][p], f(&b) - b.own[u][p] - b.stk[u][p], showx(x));
                    }
                }
                for p in 0..POOLS {
                    ensure!(b.ex[p] == a.ex[p] + to_ex.get(&p).copied().unwrap_or(0), "exchange-share", "the exchange's own shares of :{}: {} -> {} by {}", p, a.ex[p], b.ex[p], showx(x));
                }
            } else {
                ensure!(a.stk == b.stk && a.amt == b.amt && a.fa == b.fa, "stake-moved", "stakes changed by {}: farming contract's shares {:?} -> {:?}, staked {:?} -> {:?}", showx(x), a.fa, b.fa, a.amt, b.amt);
            }
            if ["mft_on_transfer", "mft_transfer"].contains(&x.method.as_str()) && staking(x) && !*first && x.ok() {
                moved += 1;
            }
        }
        for p in 0..POOLS {
            let staked: u128 = b.stk.values().map(|v| v[p]).sum();
            ensure!(staked == b.amt[p], "stake-sum", "seed {} has {} but the farmers' stakes are {} [{:?}]", seed(p), b.amt[p], staked, r.as_ref().map(|x| showx(&x.1)));
            let fly: u128 = b.fly.iter().filter(|(k, _)| k.1 == p).map(|x| *x.1).sum();
            ensure!(b.fa[p] == b.amt[p] + fly + stuck[p], "not-backed", "the farming contract has {} shares of :{}, {} are staked, {} under way, {} its own, after {:?}", b.fa[p], p, b.amt[p], fly, stuck[p], r.as_ref().map(|x| showx(&x.1)));
        }
        a = b;
    }
    // everybody can have everything back
    for (to, m) in [(FA, "resume_contract"), (EX, "change_state")] {
        let args = if to == EX { json!({"state": "Running"}) } else { json!({}) };
        let state = e.w.view(to, if to == EX { "metadata" } else { "get_metadata" }, json!({})).unwrap()["state"].clone();
        if state != "Running" {
            let r = e.w.tx(OWNER, to, m, args, 1);
            ensure!(r.ok(), "cannot-resume", "{}", showx(&r));
        }
    }
    for u in ACTORS {
        for p in 0..POOLS {
            let x = a.stk[u][p];
            if x == 0 {
                continue;
            }
            e.share_reg(p, u);
            let before = e.shares_of(u, p as u64);
            let r = e.w.tx_drain(u, FA, "withdraw_seed", json!({"seed_id": seed(p), "amount": x.to_string()}), 1);
            ensure!(r.iter().all(|x| x.ok()), "cannot-unstake", "{} cannot take back {} of :{}: {:?}", u, x, p, r.iter().map(showx).collect::<Vec<_>>());
            let after = e.shares_of(u, p as u64);
            ensure!(after == before + x, "not-returned", "{} took back {} of :{} and has {} -> {}", u, x, p, before, after);
            st.label("unstaked at the end");
        }
    }
    let b = snap(&e);
    for p in 0..POOLS {
        ensure!(b.amt[p] == 0 && b.fa[p] == stuck[p], "left-over", "after everybody left seed {} has {}, the farming contract {} shares, {} its own", seed(p), b.amt[p], b.fa[p], stuck[p]);
    }
    if moved >= 2 || returned >= 1 {
        st.hit();
    }
    Ok(())
}

fn sop() -> BoxedStrategy<So> {
    let w = || prop_oneof![12 => 0u8..4, 1 => 4u8..7];
    let p = || prop_oneof![20 => 0u8..200, 1 => 200u8..=255];
    let ex = mix(&[(3, G::Add), (3, G::AddStable), (3, G::Remove), (2, G::RemoveBy), (4, G::MftPool), (2, G::MftReg), (3, G::Shadow), (2, G::Liquidate), (2, G::Swap), (1, G::StorUnreg), (1, G::DonateShare), (1, G::Pause)]);
    prop_oneof![
        14 => (w(), p(), amt(), prop::bool::weighted(0.35)).prop_map(|(who, pool, a, all)| So::Stake { who, pool, a, all }),
        10 => (w(), p(), amt()).prop_map(|(who, pool, a)| So::Unstake { who, pool, a }),
        1 => (w(), p(), amt()).prop_map(|(who, pool, a)| So::Give { who, pool, a }),
        3 => (w(), p()).prop_map(|(who, pool)| So::ClaimSeed { who, pool }),
        2 => w().prop_map(|who| So::Take { who }),
        2 => (0u8..7).prop_map(|who| So::Join { who }),
        2 => w().prop_map(|who| So::Leave { who }),
        1 => (w(), p()).prop_map(|(who, pool)| So::Drop { who, pool }),
        5 => (w(), p(), prop::bool::weighted(0.2)).prop_map(|(who, pool, on)| So::ShareReg { who, pool, on }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(pool, min)| So::Farm { pool, min }),
        2 => prop::bool::weighted(0.4).prop_map(So::FaPause),
        3 => (0u32..100_000).prop_map(|secs| So::Wait { secs }),
        12 => ex.prop_map(So::Ex),
        14 => (any::<u8>(), prop::bool::weighted(0.15)).prop_map(|(k, fail)| So::Step { k, fail }),
        2 => Just(So::Drain),
    ]
    .boxed()
}

pub fn defs() -> Vec<Def> {
    vec![def(
        "C49",
        "a generated history of up to 40 operations on the real exchange and the real farming contract, shares of pools being staked and taken back while they are also traded, locked and moved, receipts in generated order; non-trivial: two stakes or withdrawals went through or one came back",
        800,
        60_000,
        || {
            (setup(), prop::collection::vec(0u8..10, 1..4), prop_oneof![3 => Just(15u8), 1 => any::<u8>()], prop::bool::weighted(0.3), any::<bool>(), prop::collection::vec(sop(), 5..40))
                .prop_map(|(setup, pools, reg, known, eager, ops)| Case { setup, pools, reg, known, eager, ops })
                .boxed()
        },
        check,
    )]
}
