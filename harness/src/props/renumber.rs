//! C50: the number a pool has, and how many others there are, make no difference.
//! C52: neither do the numbers farms have.
use super::farm::{fhist, FCall, FHist, FSnap, FarmS, Fo, Fx, FA, PEOPLE};
use super::*;
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum No {
    Ex(Op),
    Stake { who: u8, pool: u8, a: Amt, all: bool },
    Unstake { who: u8, pool: u8, a: Amt },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub setup: Setup,
    pub others: u16,
    /// liquidity of some of the other pools
    pub liq: Vec<u16>,
    pub ops: Vec<No>,
}

/// The other pools come last in the one world and first in the other.
#[derive(Clone, Copy)]
struct Map {
    d: u64,
}
impl Map {
    fn id(&self, p: u64) -> u64 {
        let n = POOLS as u64;
        if p < n {
            p + self.d
        } else if p < n + self.d {
            p - n
        } else {
            p
        }
    }
    fn text(&self, s: &str) -> String {
        for pre in [":", "shadow_ref_v1-", "ex.near@", "ref-pool-", "REF-POOL-"] {
            if let Some(k) = s.strip_prefix(pre) {
                let (k, rest) = k.split_at(k.find('#').unwrap_or(k.len()));
                if let Ok(k) = k.parse::<u64>() {
                    return format!("{}{}{}", pre, self.id(k), rest);
                }
            }
        }
        if s.starts_with('{') {
            if let Ok(v) = serde_json::from_str::<Value>(s) {
                return self.val(&v).to_string();
            }
        }
        s.to_string()
    }
    fn val(&self, v: &Value) -> Value {
        match v {
            Value::Object(m) => Value::Object(
                m.iter()
                    .map(|(k, v)| match (k.as_str(), v) {
                        ("pool_id", Value::Number(n)) => (k.clone(), json!(self.id(n.as_u64().unwrap()))),
                        _ => (self.text(k), self.val(v)),
                    })
                    .collect(),
            ),
            Value::Array(a) => Value::Array(a.iter().map(|x| self.val(x)).collect()),
            Value::String(s) => Value::String(self.text(s)),
            x => x.clone(),
        }
    }
    /// maps whose keys are numbers of pools
    fn keyed(&self, v: &Value) -> Value {
        v.as_object().map(|m| Value::Object(m.iter().map(|(k, v)| (self.id(k.parse().unwrap()).to_string(), v.clone())).collect())).unwrap_or(v.clone())
    }
}

fn begin(c: &Case, d: usize, first: bool) -> Ex {
    let mut e = Ex::with_others(&c.setup, if first { d } else { 0 }, if first { 0 } else { d });
    let f = if first { 0 } else { POOLS };
    for (j, l) in c.liq.iter().enumerate().take(d) {
        // the last ones, too
        let j = if j % 2 == 0 { j } else { d - j };
        e.seed_pool(f + j, j, *l, &c.setup);
    }
    e.w.deploy(FA, code("ref_farming"), 20 * NEAR);
    let o = if first { d } else { 0 };
    assert!(e.w.tx(OWNER, FA, "new", json!({ "owner_id": OWNER }), 0).ok());
    for u in USERS {
        assert!(e.w.tx(u, FA, "storage_deposit", json!({}), NEAR).ok());
    }
    for p in [0usize, 3, 4, 6] {
        let t = json!({"seed_id": format!("{}@{}", EX, o + p), "reward_token": "usdc.near", "start_at": 0, "reward_per_session": "1000000", "session_interval": 60});
        let r = e.w.tx(OWNER, FA, "create_simple_farm", json!({"terms": t, "min_deposit": "1"}), NEAR);
        assert!(r.ok(), "no farm: {:?}", r.result);
        e.share_reg(o + p, FA);
        for u in USERS {
            e.share_reg(o + p, u);
        }
    }
    e
}

/// everything of one world that is compared: `ids` are the pools in the order of the other world
fn seen(e: &Ex, ids: &[u64]) -> Vec<(String, Value)> {
    let mut v = vec![("pools".to_string(), e.v("get_pool_detail_info_by_ids", json!({ "pool_ids": ids })))];
    for u in HOLDERS.iter().chain([FA].iter()) {
        v.push((format!("shares of {}", u), e.v("get_pool_shares_batch", json!({"pool_ids": ids, "account_id": u}))));
        v.push((format!("deposits of {}", u), e.v("get_deposits", json!({ "account_id": u }))));
        v.push((format!("storage of {}", u), e.v("get_user_storage_state", json!({ "account_id": u }))));
        v.push((format!("lost and found of {}", u), e.v("list_lostfound_tokens", json!({ "account_id": u }))));
    }
    // what a farm costs depends on the length of its name
    for (k, x) in e.w.near.iter().filter(|(k, _)| *k != FA && *k != OWNER) {
        v.push((format!("NEAR of {}", k), json!(x.to_string())));
    }
    v.push(("receipts under way".into(), json!(e.w.pending.len())));
    v
}
/// the same through every view that takes a pool, and the lists of them
fn views(e: &Ex, m: Option<Map>, ids: &[u64]) -> Vec<(String, Value)> {
    let mut v = vec![];
    let to = |x: &Value| m.map(|m| m.val(x)).unwrap_or(x.clone());
    let mut ask = |name: String, m: &str, a: Value| v.push((name, e.tv(m, a).map(|x| to(&x)).unwrap_or(Value::Null)));
    let all: Vec<Value> = ["get_pools", "get_pool_detail_infos"].iter().map(|q| e.tv(q, json!({"from_index": 0, "limit": 1000})).unwrap()).collect();
    let fees: Vec<Value> = ids.iter().map(|p| e.tv("get_pool_fee", json!({ "pool_id": p })).unwrap_or_default()).collect();
    for (i, p) in ids.iter().enumerate() {
        let t = |q: &str| format!("{} of pool {} here", q, i);
        for q in ["get_pool", "get_pool_detail_info", "get_stable_pool", "get_rated_pool", "get_degen_pool", "get_pool_volumes", "get_pool_share_price", "get_pool_total_shares", "get_pool_twap_info_view", "get_unit_share_token_amounts", "get_unit_share_twap_token_amounts", "get_pool_limit_by_pool_id"] {
            ask(t(q), q, json!({ "pool_id": p }));
        }
        ask(t("mft_total_supply"), "mft_total_supply", json!({"token_id": format!(":{}", p)}));
        ask(t("mft_metadata"), "mft_metadata", json!({"token_id": format!(":{}", p)}));
        for u in USERS.iter().chain([EX, FA].iter()) {
            ask(t(&format!("mft_balance_of {}", u)), "mft_balance_of", json!({"token_id": format!(":{}", p), "account_id": u}));
            ask(t(&format!("mft_has_registered {}", u)), "mft_has_registered", json!({"token_id": format!(":{}", p), "account_id": u}));
            ask(t(&format!("get_pool_shares {}", u)), "get_pool_shares", json!({"pool_id": p, "account_id": u}));
        }
        let toks: Vec<String> = all[0][*p as usize]["token_account_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        ask(t("get_return"), "get_return", json!({"pool_id": p, "token_in": toks[0], "amount_in": "1000000", "token_out": toks[1]}));
        ask(t("get_return_by_output"), "get_return_by_output", json!({"pool_id": p, "token_in": toks[0], "amount_out": "1000000", "token_out": toks[1]}));
        ask(t("predict_remove_liquidity"), "predict_remove_liquidity", json!({"pool_id": p, "shares": "1000000"}));
    }
    for (i, p) in ids.iter().enumerate() {
        v.push((format!("entry of pool {} here in get_pools", i), all[0][*p as usize].clone()));
        v.push((format!("entry of pool {} here in get_pool_detail_infos", i), all[1][*p as usize].clone()));
        v.push((format!("fee of pool {} here", i), fees[i].clone()));
    }
    v.push(("number of pools".into(), json!([e.v("get_number_of_pools", json!({})), all[0].as_array().unwrap().len(), all[1].as_array().unwrap().len()])));
    for u in USERS {
        let r = e.v("get_shadow_records", json!({ "account_id": u }));
        v.push((format!("locks of {}", u), m.map(|m| m.keyed(&r)).unwrap_or(r)));
        let x = e.w.view(FA, "list_user_seeds", json!({ "account_id": u })).unwrap();
        v.push((format!("stakes of {}", u), to(&x)));
    }
    let x = e.v("get_pool_limit_paged", json!({}));
    v.push(("limits".into(), m.map(|m| m.keyed(&x)).unwrap_or(x)));
    let x = e.w.view(FA, "list_seeds_info", json!({"from_index": 0, "limit": 100})).unwrap();
    v.push(("seeds".into(), to(&x)));
    v
}
fn differ(a: &[(String, Value)], b: &[(String, Value)]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} and {} entries", a.len(), b.len()));
    }
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("{}: {} and {} ({})", x.0, x.1, y.1, y.0))
}

fn check(c: &Case, st: &mut Stats) -> Res {
    let d = c.others as usize;
    let m = Map { d: d as u64 };
    let mut e = begin(c, d, false);
    let mut f = begin(c, d, true);
    // the usual ones, the first few of the others and the last
    let mut ids: Vec<u64> = (0..POOLS as u64).collect();
    ids.extend((0..d.min(6) as u64).chain(d.saturating_sub(6).max(6).min(d) as u64..d as u64).map(|j| j + POOLS as u64));
    let there: Vec<u64> = ids.iter().map(|p| m.id(*p)).collect();
    if let Some(x) = differ(&seen(&e, &ids), &seen(&f, &there)) {
        return viol("setup-differs", format!("{} pools first instead of last: {}", d, x));
    }
    let mut ok = 0;
    for op in &c.ops {
        let (ra, rb): (Vec<Executed>, Vec<Executed>) = match op {
            No::Ex(o) => match e.call_of(o) {
                Some(k) => {
                    let liq = k.method == "on_burrow_liquidation";
                    let args = m.val(&k.args);
                    let x = e.run(o, false).executed;
                    let y = f.w.tx(&k.signer, &k.to, &k.method, args.clone(), k.deposit);
                    if liq && y.ok() {
                        let key = (args["liquidation_account_id"].as_str().unwrap().to_string(), args["shadow_id"].as_str().unwrap().to_string());
                        if let Some(n) = f.w.model_mut(BURROW).shadow_mut().rec.get_mut(&key) {
                            *n = n.saturating_sub(num(&args["liquidate_share_amount"]));
                        }
                    }
                    (x, vec![y])
                }
                None => (e.run(o, false).executed, f.run(o, false).executed),
            },
            No::Stake { who, pool, a, all } => {
                let p = [0u64, 3, 4, 6][*pool as usize % 4];
                let u = user(*who);
                let have = e.shares_of(u, p);
                let x = a.of(have, have).to_string();
                let go = |e: &mut Ex, p: u64| {
                    let id = format!(":{}", p);
                    let mut r = vec![if *all {
                        e.w.tx(u, EX, "mft_transfer_all_call", json!({"token_id": id, "receiver_id": FA, "msg": ""}), 1)
                    } else {
                        e.w.tx(u, EX, "mft_transfer_call", json!({"token_id": id, "receiver_id": FA, "amount": x, "msg": ""}), 1)
                    }];
                    r.extend(e.w.drain());
                    r
                };
                (go(&mut e, p), go(&mut f, m.id(p)))
            }
            No::Unstake { who, pool, a } => {
                // somebody who has a stake, if anybody
                let have = |u: &str, p: u64| map_num(&e.w.view(FA, "list_user_seeds", json!({ "account_id": u })).unwrap()).get(&format!("{}@{}", EX, p)).copied().unwrap_or(0);
                let (u, p) = (0..16u8)
                    .map(|k| (user((*who + k) % 4), [0u64, 3, 4, 6][(*pool as usize + k as usize / 4) % 4]))
                    .max_by_key(|(u, p)| (have(u, *p) > 0) as u8)
                    .unwrap();
                let have = have(u, p);
                let x = a.of(have, have).to_string();
                let go = |e: &mut Ex, p: u64| vec![e.w.tx(u, FA, "withdraw_seed", json!({"seed_id": format!("{}@{}", EX, p), "amount": x}), 1)];
                (go(&mut e, p), go(&mut f, m.id(p)))
            }
        };
        ensure!(ra.len() == rb.len(), "receipts-differ", "{:?}: {} and {} receipts", op, ra.len(), rb.len());
        for (x, y) in ra.iter().zip(&rb) {
            st.label(&format!("{} {}", x.method, if x.ok() { "ok" } else { "fails" }));
            let show = |x: &Executed| show(&OpRun { call: None, executed: vec![x.clone()] });
            ensure!(x.ok() == y.ok() && m.val(&x.json()) == y.json(), "result-differs", "with {} pools first instead of last: {} but {}", d, show(x), show(y));
            // what others are told
            ensure!(x.receiver == y.receiver && x.method == y.method, "receipt-differs", "with {} pools first instead of last: {} but {}", d, show(x), show(y));
            ensure!(x.receiver == EX || m.val(&x.args_json()) == y.args_json(), "message-differs", "with {} pools first instead of last: {} {} but {} {}", d, show(x), x.args_json(), show(y), y.args_json());
            if x.ok() && x.args_json().to_string().contains("pool_id") || x.method.starts_with("mft_") && x.ok() {
                ok += 1;
            }
        }
        if !ra.is_empty() {
            if let Some(x) = differ(&seen(&e, &ids), &seen(&f, &there)) {
                return viol("state-differs", format!("with {} pools first instead of last, after {}: {}", d, ra.iter().map(|x| show(&OpRun { call: None, executed: vec![x.clone()] })).collect::<Vec<_>>().join("; "), x));
            }
        }
    }
    let (x, y) = (e.w.drain(), f.w.drain());
    ensure!(x.len() == y.len(), "receipts-differ", "{} and {} receipts at the end", x.len(), y.len());
    for (a, b) in [(seen(&e, &ids), seen(&f, &there)), (views(&e, Some(m), &ids), views(&f, None, &there))] {
        if let Some(x) = differ(&a, &b) {
            return viol("state-differs", format!("with {} pools first instead of last, at the end: {}", d, x));
        }
    }
    st.label(match d {
        0..=9 => "up to 9 other pools",
        10..=84 => "10 to 84 other pools",
        85..=239 => "85 and more other pools",
        _ => "248 and more other pools",
    });
    if ok >= 3 {
        st.hit();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    pub h: FHist,
    /// other farms, by seed
    pub others: Vec<super::farm::Terms>,
    /// in what order the second contract's farms are created
    pub order: Vec<u16>,
    pub min: bool,
}
type Ids = BTreeMap<String, String>;
fn fmap(ids: &Ids, v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), fmap(ids, v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| fmap(ids, x)).collect()),
        Value::String(s) => json!(ids.get(s).unwrap_or(s)),
        x => x.clone(),
    }
}
fn fsnap(s: &FSnap, ids: &Ids) -> FSnap {
    let to = |k: &String| ids.get(k).unwrap_or(k).clone();
    let farms = |m: &BTreeMap<String, FarmS>| m.iter().map(|(k, v)| (to(k), v.clone())).collect();
    let mut t = s.clone();
    t.farms = farms(&s.farms);
    t.old = farms(&s.old);
    t.unc = s.unc.iter().map(|((p, f), x)| ((p.clone(), to(f)), *x)).collect();
    for x in t.seeds.values_mut() {
        x.farms = x.farms.iter().map(&to).collect();
    }
    t
}
/// where two reports differ
fn fdiffer(a: &FSnap, b: &FSnap) -> String {
    let (a, b) = (format!("{:?}", a), format!("{:?}", b));
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s[k.saturating_sub(120)..(k + 160).min(s.len())].to_string();
    format!("...{}... and ...{}...", cut(&a), cut(&b))
}
fn fcheck(c: &FCase, st: &mut Stats) -> Res {
    let mut f = Fx::base();
    if c.h.frac {
        f.w.now += 500_000_000;
    }
    let mut g = f.clone();
    let mut terms: Vec<Value> = c.h.farms.iter().map(|x| f.terms_json(&x.0)).collect();
    let own = terms.len();
    terms.extend(c.others.iter().map(|t| f.terms_json(t)));
    let mut order: Vec<usize> = (0..terms.len()).collect();
    order.sort_by_key(|k| (c.order.get(*k).copied().unwrap_or(*k as u16), *k));
    // terms which are refused are refused whenever they come
    let made = |f: &mut Fx, order: &[usize]| -> Vec<Option<String>> {
        let mut ids = vec![None; terms.len()];
        for k in order {
            let r = f.w.tx(OWNER, FA, "create_simple_farm", json!({"terms": terms[*k], "min_deposit": if c.min { json!("1") } else { Value::Null }}), NEAR);
            ids[*k] = r.ok().then(|| r.json().as_str().unwrap().to_string());
        }
        ids
    };
    let one = made(&mut f, &(0..terms.len()).collect::<Vec<_>>());
    let two = made(&mut g, &order);
    for k in 0..terms.len() {
        ensure!(one[k].is_some() == two[k].is_some(), "creation-differs", "{} made {:?} in one order and {:?} in another", terms[k], one[k], two[k]);
    }
    let own = one[..own].iter().flatten().count();
    let (one, two): (Vec<String>, Vec<String>) = (one.into_iter().flatten().collect(), two.into_iter().flatten().collect());
    // operations mostly name the first ones
    f.ids = one.clone();
    f.ids.truncate(own.max(6));
    g.ids = f.ids.clone();
    let ids: Ids = one.into_iter().zip(two).collect();
    let moved = ids.iter().filter(|(a, b)| a.len() < b.len()).count();
    if moved > 0 {
        st.label("numbers of different length");
    }
    let mut ops: Vec<Fo> = super::farm::setup_ops(&c.h).into_iter().filter(|o| !matches!(o, Fo::Create { .. })).collect();
    ops.extend(c.h.ops.iter().cloned());
    let mut todo: std::collections::VecDeque<Fo> = Default::default();
    for o in ops {
        todo.push_back(o);
        if c.h.eager {
            todo.push_back(Fo::Drain);
        }
    }
    todo.push_back(Fo::Drain);
    let (mut claims, mut ok) = (0, 0);
    while let Some(op) = todo.pop_front() {
        if op == Fo::Drain {
            if !f.w.ready().is_empty() {
                todo.push_front(Fo::Drain);
                todo.push_front(Fo::Step { k: 0, fail: false });
            }
            continue;
        }
        let (x, y): (Option<Executed>, Option<Executed>) = match f.call(&op) {
            // later farms have the same number in both
            Some(FCall { signer, to, method, args, deposit }) => {
                let x = f.w.tx(&signer, &to, &method, args.clone(), deposit);
                let y = g.w.tx(&signer, &to, &method, fmap(&ids, &args), deposit);
                (Some(x), Some(y))
            }
            None => match op {
                Fo::Until { .. } => {
                    f.run(&op);
                    g.w.advance((f.w.now - g.w.now) / 1_000_000_000);
                    (None, None)
                }
                _ => (f.run(&op).1, g.run(&op).1),
            },
        };
        let show = |x: &Option<Executed>| x.as_ref().map(super::farm::xshow).unwrap_or_default();
        ensure!(f.w.now == g.w.now, "time-differs", "{} and {} after {:?}", f.w.now, g.w.now, op);
        if let (Some(x), Some(y)) = (&x, &y) {
            ensure!(x.receiver == y.receiver && x.method == y.method, "receipt-differs", "{} but {}", show(&Some(x.clone())), show(&Some(y.clone())));
            ensure!(x.ok() == y.ok() && fmap(&ids, &x.json()) == y.json(), "result-differs", "{} but {}", show(&Some(x.clone())), show(&Some(y.clone())));
            st.label(&format!("{} {}", x.method, if x.ok() { "ok" } else { "fails" }));
            if x.ok() {
                ok += (x.receiver == FA) as u32;
                claims += x.method.starts_with("claim") as u32;
            }
        } else {
            ensure!(x.is_none() == y.is_none(), "receipt-differs", "{} but {}", show(&x), show(&y));
        }
        if x.map_or(true, |x| x.receiver == FA && x.ok()) {
            let (a, b) = (fsnap(&f.snap(true), &ids), g.snap(true));
            ensure!(a == b, "state-differs", "after {:?}: {}", op, fdiffer(&a, &b));
        }
        for p in PEOPLE.iter().filter(|p| **p != OWNER) {
            ensure!(f.w.balance(p) == g.w.balance(p), "NEAR-differs", "{} has {} and {} after {:?}", p, f.w.balance(p), g.w.balance(p), op);
        }
    }
    if claims > 0 && ok >= 5 && moved > 0 {
        st.hit();
    }
    Ok(())
}

pub fn defs() -> Vec<Def> {
    let ops = || {
        let ex = mix(&[(8, G::Add), (8, G::AddStable), (5, G::Remove), (4, G::RemoveBy), (14, G::Swap), (4, G::SwapOut), (5, G::Instant), (5, G::Zap), (8, G::MftPool), (3, G::MftReg), (8, G::Shadow), (4, G::Liquidate), (2, G::DonateShare), (2, G::Ramp), (3, G::Fees), (3, G::OwnerFees), (3, G::Twap), (2, G::Limit), (8, G::Step), (2, G::Drain), (3, G::Advance)]);
        // a limit matters to those who add to that pool afterwards
        let capped = (prop::sample::select(vec![5u8, 9]), 0u8..9, 1u8..100, 0u8..4, (1u16..9000, 1u16..9000, 1u16..9000), any::<bool>()).prop_map(|(pool, e, d, who, a, upd)| {
            let mut v = vec![No::Ex(Op::Limit { pool, tvl: Amt::Log(e, d), kind: 0 })];
            if upd {
                v.push(No::Ex(Op::Limit { pool, tvl: Amt::Log(e, d), kind: 1 }));
            }
            v.push(No::Ex(Op::AddStable { who, pool, a: [Amt::Frac(a.0), Amt::Frac(a.1), Amt::Frac(a.2)], min: 0 }));
            v
        });
        prop::collection::vec(prop_oneof![
            20 => ex.prop_map(|o| vec![No::Ex(o)]),
            1 => capped,
            2 => (0u8..4, any::<u8>(), amt_ok(), any::<bool>()).prop_map(|(who, pool, a, all)| vec![No::Stake { who, pool, a, all }]),
            2 => (0u8..4, any::<u8>(), amt_ok()).prop_map(|(who, pool, a)| vec![No::Unstake { who, pool, a }]),
        ], 5..30).prop_map(|v| v.concat())
    };
    vec![def(
        "C50",
        "a generated history of up to 30 operations on two exchanges which differ in that up to 260 other pools were created before the usual ten instead of after; non-trivial: at least three operations on a pool went through",
        400,
        40_000,
        move || {
            let others = prop_oneof![4 => Just(1u16), 6 => 2u16..20, 3 => 85u16..100, 2 => 248u16..262];
            (setup(), others, prop::collection::vec(0u16..=40, 0..12), ops()).prop_map(|(setup, others, liq, ops)| Case { setup, others, liq, ops }).boxed()
        },
        check,
    ), def(
        "C52",
        "a generated history of up to 30 operations on two farming contracts whose up to 18 farms were created in different orders; non-trivial: somebody claimed, five operations went through and some farm's number has more digits in one than in the other",
        600,
        40_000,
        || {
            // mostly of one seed, as numbers count within a seed
            (fhist(5..30, false), prop::collection::vec(super::farm::terms(), 6..14), prop::collection::vec(any::<u16>(), 18), any::<bool>(), prop_oneof![2 => Just(true), 1 => Just(false)])
                .prop_map(|(h, mut others, order, min, one)| {
                    if one {
                        others.iter_mut().for_each(|t| t.seed = h.farms.first().map_or(0, |x| x.0.seed));
                    }
                    FCase { h, others, order, min }
                })
                .boxed()
        },
        fcheck,
    )]
}
