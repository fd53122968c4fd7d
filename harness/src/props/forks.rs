//! C06, C07, C29: one operation on several forks of one generated state.
use super::*;
use crate::chain::NEAR;
use crate::ensure;
use crate::model::{volumes, M};
use num_bigint::BigUint as B;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Probe {
    pub h: Hist,
    pub op: Op,
    pub k: u8,
    pub x: u16,
}
pub const STATE: &[(u32, G)] = &[
    (3, G::Add), (5, G::AddStable), (2, G::Remove), (3, G::RemoveBy), (8, G::Swap), (2, G::SwapOut), (3, G::Instant),
    (1, G::Zap), (2, G::Rates), (1, G::Ramp), (1, G::Fees), (2, G::Shadow), (1, G::Deposit), (1, G::OwnerFees),
];
pub fn probe(ops: BoxedStrategy<Op>, len: std::ops::Range<usize>) -> BoxedStrategy<Probe> {
    (hist(STATE, len), ops, any::<u8>(), any::<u16>()).prop_map(|(h, op, k, x)| Probe { h, op, k, x }).boxed()
}
pub fn state(h: &Hist) -> Ex {
    let mut e = Ex::with(&h.setup);
    for op in &h.ops {
        e.run(op, true);
    }
    e
}
pub const ALL: SnapSpec = SnapSpec { dep: true, lost: true, pools: true, shares: true, locks: true, stor: false };

/// everything a user could see of an operation's effect
#[derive(PartialEq, Debug)]
pub struct Seen {
    pub s: Snap,
    pub ft: BTreeMap<(String, String), u128>,
    pub vols: Vec<Vec<(B, B)>>,
}
pub fn see(e: &Ex) -> Seen {
    let mut ft = BTreeMap::new();
    for t in TOKENS {
        for a in ACTORS.iter().chain([EX].iter()) {
            ft.insert((t.id.to_string(), a.to_string()), e.ft(t.id, a));
        }
    }
    Seen { s: e.snap(&ALL), ft, vols: volumes(e, POOLS) }
}
/// runs a call with all it causes; the answer of the call itself, if everything went well
pub fn exec(e: &mut Ex, c: &Call) -> Option<Value> {
    let r = e.w.tx_drain(&c.signer, &c.to, &c.method, c.args.clone(), c.deposit);
    // an instant trade's outcome shows in the exchange's own receipt
    let all = r.iter().all(|x| x.ok());
    let inner = r.iter().find(|x| x.receiver == EX && x.method == "ft_on_transfer");
    if !all || inner.map_or(false, |x| !x.ok()) {
        return None;
    }
    Some(r[0].json())
}
/// good trades
fn swaps(n: usize) -> BoxedStrategy<Op> {
    (who4(), good_path(n), prop_oneof![8 => amt_ok(), 2 => (1u16..6000).prop_map(Amt::Frac)], any::<bool>(), any::<u8>())
        .prop_map(|(who, mut path, a, refer, split)| {
            path.split = if split > 200 { split } else { 0 };
            Op::Swap { who, path, a, refer, via: 0, attach: true }
        })
        .boxed()
}
fn swap_outs(n: usize) -> BoxedStrategy<Op> {
    (who4(), good_path(n), prop_oneof![8 => amt_ok(), 4 => (1u16..20000).prop_map(Amt::Frac)], any::<bool>(), any::<u8>())
        .prop_map(|(who, mut path, a, refer, split)| {
            path.split = if split > 200 { split } else { 0 };
            Op::SwapOut { who, path, a, refer, via: 0, attach: true }
        })
        .boxed()
}
fn who4() -> BoxedStrategy<u8> {
    (0u8..4).boxed()
}
fn a3() -> BoxedStrategy<[Amt; 3]> {
    [a0(), a0(), a0()].boxed()
}
fn a0() -> BoxedStrategy<Amt> {
    prop_oneof![3 => Just(Amt::Small(0)), 8 => (1u16..=65535).prop_map(Amt::Frac), 2 => amt_ok()].boxed()
}
fn liq() -> BoxedStrategy<Op> {
    let sp = || prop::sample::select(vec![0u8, 1, 2, 6]);
    let cp = || prop::sample::select(vec![3u8, 4, 5, 7, 8, 9]);
    prop_oneof![
        3 => (who4(), sp(), [amt_ok(), amt_ok()]).prop_map(|(who, pool, a)| Op::Add { who, pool, a, min: 0 }),
        3 => (who4(), cp(), a3()).prop_map(|(who, pool, a)| Op::AddStable { who, pool, a, min: 0 }),
        4 => (who4(), 0u8..10, amt_ok()).prop_map(|(who, pool, a)| Op::Remove { who, pool, a, min: 0 }),
        4 => (prop_oneof![3 => Just(3u8), 1 => who4()], cp(), a3()).prop_map(|(who, pool, a)| Op::RemoveBy { who, pool, a, max: 1 }),
    ]
    .boxed()
}
fn zaps() -> BoxedStrategy<Op> {
    (who4(), good_path(2), amt_ok(), prop::collection::vec(0u8..10, 1..3), prop::collection::vec(zap_a3(), 2), any::<bool>())
        .prop_map(|(who, mut path, a, pools, adds, half)| {
            path.split = half as u8;
            Op::Zap { who, path, a, pools, adds, min: 0 }
        })
        .boxed()
}

// ---------------------------------------------------------------- C06

/// a bound in the arguments: where it is, what really happened, and whether it is a minimum
struct Slot {
    at: Vec<String>,
    seen: u128,
    min: bool,
}
fn slot(at: &[&str], seen: u128, min: bool) -> Slot {
    Slot { at: at.iter().map(|s| s.to_string()).collect(), seen, min }
}
fn put(args: &mut Value, at: &[String], x: u128) {
    // instructions within a transfer's message
    if at[0] == "msg" {
        let mut m: Value = serde_json::from_str(args["msg"].as_str().unwrap()).unwrap();
        put(&mut m, &at[1..], x);
        args["msg"] = json!(m.to_string());
        return;
    }
    let mut v = args;
    for k in at {
        v = match k.parse::<usize>() {
            Ok(i) => &mut v[i],
            _ => &mut v[&k[..]],
        };
    }
    *v = json!(x.to_string());
}
/// takes all bounds off
fn loosen(c: &mut Call) {
    let n = |e: &Value| e.as_array().map(|a| a.len()).unwrap_or(0);
    match &c.method[..] {
        "add_liquidity" => c.args["min_amounts"] = us(&vec![0; n(&c.args["amounts"])]),
        "add_stable_liquidity" => c.args["min_shares"] = json!("0"),
        "remove_liquidity" => c.args["min_amounts"] = us(&vec![0; n(&c.args["min_amounts"])]),
        "remove_liquidity_by_tokens" => c.args["max_burn_shares"] = json!(u128::MAX.to_string()),
        "on_burrow_liquidation" => c.args["min_token_amounts"] = us(&vec![0; n(&c.args["min_token_amounts"])]),
        "swap_by_output" => {
            for a in c.args["actions"].as_array_mut().unwrap() {
                a["max_amount_in"] = json!(u128::MAX.to_string());
            }
        }
        _ => {}
    }
}
/// the bounds of a call that goes through without any, with the values they are about
fn slots(e: &Ex, c: &Call, a: &Seen, b: &Seen, answer: &Value) -> Vec<Slot> {
    let me = &c.signer;
    let up = |who: &str, t: &str| b.s.d(who, t) as i128 - a.s.d(who, t) as i128;
    let mut v = vec![];
    let pool = c.args["pool_id"].as_u64().map(|p| p as usize);
    match &c.method[..] {
        "swap" | "swap_by_output" => {
            let acts = c.args["actions"].as_array().unwrap();
            for i in 0..acts.len() {
                let x = if i + 1 == acts.len() {
                    num(answer)
                } else {
                    let mut f = e.clone();
                    let mut c2 = c.clone();
                    c2.args["actions"] = json!(acts[..=i]);
                    match exec(&mut f, &c2) {
                        Some(x) => num(&x),
                        None => continue,
                    }
                };
                let k = i.to_string();
                if c.method == "swap" {
                    v.push(slot(&["actions", &k, "min_amount_out"], x, true));
                } else {
                    v.push(slot(&["actions", &k, "max_amount_in"], x, false));
                }
            }
        }
        "add_liquidity" => {
            for (i, t) in a.s.pools[pool.unwrap()].tokens.iter().enumerate() {
                v.push(slot(&["min_amounts", &i.to_string()], (-up(me, t)) as u128, true));
            }
        }
        "add_stable_liquidity" => v.push(slot(&["min_shares"], b.s.sh(me, pool.unwrap()) - a.s.sh(me, pool.unwrap()), true)),
        "remove_liquidity" => {
            for (i, t) in a.s.pools[pool.unwrap()].tokens.iter().enumerate() {
                v.push(slot(&["min_amounts", &i.to_string()], up(me, t) as u128, true));
            }
        }
        "remove_liquidity_by_tokens" => v.push(slot(&["max_burn_shares"], a.s.sh(me, pool.unwrap()) - b.s.sh(me, pool.unwrap()), false)),
        "on_burrow_liquidation" => {
            let p: usize = c.args["shadow_id"].as_str().unwrap().rsplit('-').next().unwrap().parse().unwrap();
            let to = c.args["liquidator_account_id"].as_str().unwrap();
            for (i, t) in a.s.pools[p].tokens.iter().enumerate() {
                v.push(slot(&["min_token_amounts", &i.to_string()], up(to, t) as u128, true));
            }
        }
        "ft_transfer_call" => {
            let m: Value = serde_json::from_str(c.args["msg"].as_str().unwrap()).unwrap();
            if let Some(acts) = m["actions"].as_array() {
                let n = acts.len() - 1;
                let out = acts[n]["token_out"].as_str().unwrap();
                // only when nothing else of that token moves
                if acts.iter().enumerate().all(|(i, x)| x["token_in"] != out && (i == n || x["token_out"] != out)) && acts[0].get("min_amount_out").is_some() {
                    let to = m["swap_out_recipient"].as_str().unwrap_or(me);
                    let k = (out.to_string(), to.to_string());
                    v.push(slot(&["msg", "actions", &n.to_string(), "min_amount_out"], b.ft[&k] - a.ft[&k], true));
                }
            } else if let Some(infos) = m["add_liquidity_infos"].as_array() {
                for (i, info) in infos.iter().enumerate() {
                    let p = num(&info["pool_id"]) as usize;
                    // the same pool twice: the shares of each part are not visible
                    if infos.iter().filter(|x| num(&x["pool_id"]) as usize == p).count() > 1 {
                        continue;
                    }
                    let got = b.s.sh(me, p) - a.s.sh(me, p);
                    let k = i.to_string();
                    if !a.s.pools[p].simple() {
                        v.push(slot(&["msg", "add_liquidity_infos", &k, "min_shares"], got, true));
                    } else if m["hot_zap_actions"].as_array().unwrap().iter().all(|x| num(&x["pool_id"]) as usize != p) {
                        // the pool is touched by nothing else
                        for j in 0..2 {
                            v.push(slot(&["msg", "add_liquidity_infos", &k, "min_amounts", &j.to_string()], b.s.pools[p].amounts[j] - a.s.pools[p].amounts[j], true));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    v
}
fn bounds(p: &Probe, st: &mut Stats) -> Res {
    let mut e = state(&p.h);
    if let Op::Liquidate { of, pool, .. } = &p.op {
        let u = user(*of);
        let i = *pool as usize % POOLS;
        let s = e.shares_of(u, i as u64);
        if s > 0 {
            e.w.tx_drain(u, EX, "shadow_action", json!({"action": "ToBurrowland", "pool_id": i, "amount": Value::Null, "msg": ""}), NEAR);
        }
    }
    let mut c = match e.call_of(&p.op) {
        Some(c) => c,
        None => return Ok(()),
    };
    loosen(&mut c);
    let a = see(&e);
    let mut f = e.clone();
    let answer = exec(&mut f, &c);
    let b = see(&f);
    let answer = match answer {
        Some(x) => x,
        None => {
            st.label(&format!("{} fails anyway", c.method));
            let moved = c.method == "on_burrow_liquidation" && a != b;
            ensure!(moved || a == b, "trace", "a failed {} leaves a trace: {} {}", c.method, c.args, diff(&a, &b));
            return Ok(());
        }
    };
    let all = slots(&e, &c, &a, &b, &answer);
    if all.is_empty() {
        st.label(&format!("{} without observable bound", c.method));
        return Ok(());
    }
    // every bound exactly at what happens
    let mut at = c.clone();
    for s in &all {
        put(&mut at.args, &s.at, s.seen);
    }
    let mut f = e.clone();
    let ok = exec(&mut f, &at).is_some();
    ensure!(ok, "refused at the bound", "{} {} is refused although it meets its bounds exactly", at.method, at.args);
    let d = see(&f);
    ensure!(d == b, "bound changes result", "{} with bounds {} has another result: {}", at.method, at.args, diff(&b, &d));
    // one of them just beyond
    for (i, s) in all.iter().enumerate() {
        let step = if p.k & 1 == 0 { 1 } else { 1 + s.seen / 1000 * (p.x as u128) / 7 };
        let x = if s.min { s.seen.checked_add(step) } else { s.seen.checked_sub(step) };
        let x = match x {
            Some(x) => x,
            None => continue,
        };
        let mut c2 = if p.k & 2 == 0 { c.clone() } else { at.clone() };
        put(&mut c2.args, &s.at, x);
        let mut f = e.clone();
        let r = exec(&mut f, &c2);
        let d = see(&f);
        ensure!(r.is_none(), "bound ignored", "{}: bound {:?} = {} but the value is {}: {}", c2.method, s.at, x, s.seen, c2.args);
        ensure!(a == d, "trace", "{} refused for its bound {:?} leaves a trace: {}", c2.method, s.at, diff(&a, &d));
        st.label(&format!("{} refused one beyond its bound", c.method));
        let _ = i;
    }
    st.hit();
    Ok(())
}
pub fn diff(a: &Seen, b: &Seen) -> String {
    let mut o = vec![];
    for (k, v) in &a.ft {
        if b.ft.get(k) != Some(v) {
            o.push(format!("balance {:?} {} -> {:?}", k, v, b.ft.get(k)));
        }
    }
    for (w, m) in &a.s.dep {
        for (t, x) in m {
            if b.s.d(w, t) != *x {
                o.push(format!("deposit {} {} {} -> {}", w, t, x, b.s.d(w, t)));
            }
        }
    }
    for (w, m) in &b.s.dep {
        for (t, x) in m {
            if a.s.dep.get(w).and_then(|m| m.get(t)).is_none() {
                o.push(format!("deposit {} {} new {}", w, t, x));
            }
        }
    }
    for (i, (x, y)) in a.s.pools.iter().zip(&b.s.pools).enumerate() {
        if x != y {
            o.push(format!("pool {} {:?}/{} -> {:?}/{}", i, x.amounts, x.supply, y.amounts, y.supply));
        }
    }
    if a.s.shares != b.s.shares {
        o.push(format!("shares {:?} -> {:?}", a.s.shares, b.s.shares));
    }
    if a.s.locks != b.s.locks {
        o.push(format!("locks {:?} -> {:?}", a.s.locks, b.s.locks));
    }
    if a.s.lost != b.s.lost {
        o.push(format!("lost {:?} -> {:?}", a.s.lost, b.s.lost));
    }
    if a.vols != b.vols {
        o.push("volumes".into());
    }
    if a.s.stor != b.s.stor {
        o.push(format!("storage {:?} -> {:?}", a.s.stor, b.s.stor));
    }
    o.join("; ")
}

// ---------------------------------------------------------------- C07

fn quotes(p: &Probe, st: &mut Stats) -> Res {
    let e = state(&p.h);
    let c = match e.call_of(&p.op) {
        Some(mut c) => {
            loosen(&mut c);
            c
        }
        None => return Ok(()),
    };
    let me = &c.signer;
    let a = e.snap(&ALL);
    let i = c.args["pool_id"].as_u64().unwrap_or(0) as usize;
    let amounts = c.args["amounts"].clone();
    let mut f = e.clone();
    let done = exec(&mut f, &c);
    let b = f.snap(&ALL);
    let name = match &done {
        Some(_) => format!("{} executed", c.method),
        None => format!("{} refused", c.method),
    };
    st.label(&name);
    // (what was asked, the quote, what happened)
    let mut q: Vec<(String, Result<Value, String>, Value)> = vec![];
    let some = |x: Value| done.as_ref().map(|_| x).unwrap_or(Value::Null);
    let kind = |p: &PoolS| if p.rated() { "rated" } else if p.degen() { "degen" } else { "other" };
    match &c.method[..] {
        "swap" | "swap_by_output" => {
            let acts = c.args["actions"].as_array().unwrap();
            let by_in = c.method == "swap";
            if acts.len() == 1 {
                let x = &acts[0];
                let pid = num(&x["pool_id"]) as usize;
                let real = some(done.clone().unwrap_or(Value::Null));
                if by_in {
                    let args = json!({"pool_id": pid, "token_in": x["token_in"], "amount_in": x["amount_in"], "token_out": x["token_out"]});
                    q.push(("get_return".into(), e.tv("get_return", args.clone()), real.clone()));
                    let pool = &a.pools[pid];
                    if pool.rated() || pool.degen() {
                        let (m, key) = if pool.rated() { ("get_rated_return", "rates") } else { ("get_degen_return", "degens") };
                        // as it is, the same said explicitly, and as it will be
                        let mut x1 = args.clone();
                        x1[key] = Value::Null;
                        q.push((format!("{} present", m), e.tv(m, x1.clone()), real.clone()));
                        x1[key] = us(&pool.rates);
                        q.push((format!("{} explicit", m), e.tv(m, x1.clone()), real.clone()));
                        let mut f = e.clone();
                        f.set_rates(900 + p.x as u32 % 700, 10_000 + p.x as u32);
                        f.sync_prices();
                        x1[key] = us(&f.pool(pid).rates);
                        let later = exec(&mut f, &c).unwrap_or(Value::Null);
                        q.push((format!("{} for other values", m), e.tv(m, x1), later));
                    }
                } else {
                    let args = json!({"pool_id": pid, "token_in": x["token_in"], "amount_out": x["amount_out"], "token_out": x["token_out"]});
                    q.push(("get_return_by_output".into(), e.tv("get_return_by_output", args), real));
                }
            }
            // the whole list, against the change of deposits
            let have: BTreeMap<String, String> = a.dep.get(me).map(|m| m.iter().map(|(k, v)| (k.clone(), v.to_string())).collect()).unwrap_or_default();
            let after: BTreeMap<String, u128> = b.dep.get(me).cloned().unwrap_or_default();
            let want: serde_json::Map<String, Value> = after.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), json!(v.to_string()))).collect();
            let clean = |v: Result<Value, String>| v.map(|v| Value::Object(v.as_object().map(|m| m.iter().filter(|(_, v)| num(v) > 0).map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default()));
            let r = e.tv("predict_swap_actions", json!({"token_deposit": have, "actions": acts}));
            q.push(("predict_swap_actions".into(), clean(r), some(Value::Object(want.clone()))));
            let r = e.tv("batch_predict_swap_actions", json!({"batch_token_deposit": [have, have], "batch_actions": [acts, acts]}));
            q.push(("batch_predict_swap_actions".into(), clean(r.map(|v| v[1].clone())), some(Value::Object(want))));
        }
        "add_liquidity" => {
            let used: Vec<u128> = a.pools[i].tokens.iter().map(|t| a.d(me, t).wrapping_sub(b.d(me, t))).collect();
            let got = b.sh(me, i) - a.sh(me, i);
            q.push(("predict_add_simple_liquidity".into(), e.tv("predict_add_simple_liquidity", json!({"pool_id": i, "amounts": amounts})), some(json!({"need_amounts": us(&used), "mint_shares": got.to_string()}))));
        }
        "add_stable_liquidity" => {
            let got = b.sh(me, i) - a.sh(me, i);
            let pool = &a.pools[i];
            q.push(("predict_add_stable_liquidity".into(), e.tv("predict_add_stable_liquidity", json!({"pool_id": i, "amounts": amounts})), some(json!(got.to_string()))));
            if kind(pool) != "other" {
                let (m, key) = if pool.rated() { ("predict_add_rated_liquidity", "rates") } else { ("predict_add_degen_liquidity", "degens") };
                q.push((m.into(), e.tv(m, json!({"pool_id": i, "amounts": amounts, key: Value::Null})), some(json!(got.to_string()))));
                let mut f = e.clone();
                f.set_rates(900 + p.x as u32 % 700, 10_000 + p.x as u32);
                f.sync_prices();
                let r = us(&f.pool(i).rates);
                let a2 = f.shares_of(me, i as u64);
                let later = exec(&mut f, &c).map(|_| json!((f.shares_of(me, i as u64) - a2).to_string())).unwrap_or(Value::Null);
                q.push((format!("{} for other values", m), e.tv(m, json!({"pool_id": i, "amounts": amounts, key: r})), later));
            }
        }
        "remove_liquidity" => {
            let got: Vec<u128> = a.pools[i].tokens.iter().map(|t| b.d(me, t).wrapping_sub(a.d(me, t))).collect();
            q.push(("predict_remove_liquidity".into(), e.tv("predict_remove_liquidity", json!({"pool_id": i, "shares": c.args["shares"]})), some(us(&got))));
        }
        "remove_liquidity_by_tokens" => {
            let burnt = a.sh(me, i) - b.sh(me, i);
            let pool = &a.pools[i];
            q.push(("predict_remove_liquidity_by_tokens".into(), e.tv("predict_remove_liquidity_by_tokens", json!({"pool_id": i, "amounts": amounts})), some(json!(burnt.to_string()))));
            if kind(pool) != "other" {
                let (m, key) = if pool.rated() { ("predict_remove_rated_liquidity_by_tokens", "rates") } else { ("predict_remove_degen_liquidity_by_tokens", "degens") };
                q.push((m.into(), e.tv(m, json!({"pool_id": i, "amounts": amounts, key: Value::Null})), some(json!(burnt.to_string()))));
                let mut f = e.clone();
                f.set_rates(900 + p.x as u32 % 700, 10_000 + p.x as u32);
                f.sync_prices();
                let r = us(&f.pool(i).rates);
                let a2 = f.shares_of(me, i as u64);
                let later = exec(&mut f, &c).map(|_| json!((a2 - f.shares_of(me, i as u64)).to_string())).unwrap_or(Value::Null);
                q.push((format!("{} for other values", m), e.tv(m, json!({"pool_id": i, "amounts": amounts, key: r})), later));
            }
        }
        "ft_transfer_call" => {
            let m: Value = serde_json::from_str(c.args["msg"].as_str().unwrap()).unwrap();
            let infos = m["add_liquidity_infos"].as_array().cloned().unwrap_or_default();
            let mut shares = BTreeMap::new();
            for x in &infos {
                let p = num(&x["pool_id"]) as usize;
                shares.insert(p, b.sh(me, p) - a.sh(me, p));
            }
            let mut left = BTreeMap::new();
            for t in TOKENS {
                let x = b.d(me, t.id).wrapping_sub(a.d(me, t.id));
                if x > 0 {
                    left.insert(t.id.to_string(), x);
                }
            }
            let real = some(json!({"shares": shares.iter().map(|(k, v)| (k.to_string(), json!(v.to_string()))).collect::<serde_json::Map<_, _>>(), "left": left.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect::<serde_json::Map<_, _>>()}));
            let acc = if p.k & 1 == 0 || c.to == "cheap.near" || infos.iter().any(|x| num(&x["pool_id"]) == 2) || m.to_string().contains("cheap") { json!(me) } else { Value::Null };
            let r = e.tv("predict_hot_zap", json!({"referral_id": m["referral_id"], "account_id": acc, "token_in": c.to, "amount_in": c.args["amount"], "hot_zap_actions": m["hot_zap_actions"], "add_liquidity_infos": infos}));
            let r = r.map(|v| {
                let mut s: BTreeMap<usize, u128> = BTreeMap::new();
                for (x, y) in infos.iter().zip(v[0].as_array().cloned().unwrap_or_default()) {
                    *s.entry(num(&x["pool_id"]) as usize).or_default() += num(&y["mint_shares"]);
                }
                let left: serde_json::Map<String, Value> = v[1].as_object().cloned().unwrap_or_default().into_iter().filter(|(_, x)| num(x) > 0).collect();
                json!({"shares": s.iter().map(|(k, v)| (k.to_string(), json!(v.to_string()))).collect::<serde_json::Map<_, _>>(), "left": left})
            });
            q.push(("predict_hot_zap".into(), r, real));
        }
        _ => return Ok(()),
    }
    for (what, quote, real) in q {
        if real.is_null() {
            st.label(&format!("{} {}, not executed", what, if quote.is_ok() { "given" } else { "refused" }));
            continue;
        }
        match quote {
            Err(m) => ensure!(false, "no quote", "{} fails ({}) but {} {} gives {}", what, m, c.method, c.args, real),
            Ok(v) => ensure!(v == real, "quote differs", "{} says {} but {} {} gives {}", what, v, c.method, c.args, real),
        }
        st.label(&format!("{} = executed", what));
        st.hit();
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

fn routes(p: &Probe, st: &mut Stats) -> Res {
    let mut e = state(&p.h);
    let c = match e.call_of(&p.op) {
        Some(c) => c,
        None => return Ok(()),
    };
    let me = c.signer.clone();
    let acts = c.args["actions"].as_array().cloned().unwrap_or_default();
    if acts.is_empty() || acts.len() > 4 {
        return Ok(());
    }
    let by_in = c.method == "swap";
    // enough of everything in the wallet as well
    for t in TOKENS {
        e.w.model_mut(t.id).token_mut().mint(&me, units(t.id, 4_000_000_000));
    }
    let a = see(&e);
    let mk = |method: &str, args: Value| Call { signer: me.clone(), to: EX.into(), method: method.into(), args, deposit: 1 };
    let run = |c: &Call| {
        let mut f = e.clone();
        let r = exec(&mut f, c);
        (r, see(&f))
    };
    let (r0, s0) = run(&c);
    // as a list of actions
    let c1 = mk("execute_actions", json!({"actions": acts, "referral_id": c.args["referral_id"]}));
    let (r1, s1) = run(&c1);
    let amount = |r: &Option<Value>| r.as_ref().map(|v| if v.is_object() { v["Amount"].clone() } else { v.clone() });
    ensure!(amount(&r0) == amount(&r1), "list", "{} gives {:?}, as a list of actions {:?}: {}", c.method, r0, r1, c.args);
    ensure!(s0 == s1, "list", "{} and the list of actions leave different states: {}: {}", c.method, diff(&s0, &s1), c.args);
    // through a temporary account
    let mut need: BTreeMap<String, u128> = BTreeMap::new();
    if by_in {
        for x in acts.iter().filter(|x| x.get("amount_in").is_some()) {
            *need.entry(x["token_in"].as_str().unwrap().into()).or_default() += num(&x["amount_in"]);
        }
    } else {
        for x in &acts {
            let t = x["token_in"].as_str().unwrap();
            need.insert(t.into(), a.s.d(&me, t));
        }
    }
    let enough = need.iter().all(|(t, x)| *x <= a.s.d(&me, t));
    let c2 = mk("execute_actions_in_va", json!({"use_tokens": need.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect::<serde_json::Map<_, _>>(), "actions": acts, "referral_id": c.args["referral_id"]}));
    let (r2, s2) = run(&c2);
    if enough {
        ensure!(r0.is_some() == r2.is_some(), "temporary account", "{} {}, through a temporary account it {}: {}", c.method, okay(&r0), okay(&r2), c2.args);
        ensure!(strip(&s0, &me) == strip(&s2, &me), "temporary account", "{} and the temporary account leave different states: {}: {}", c.method, diff(&s0, &s2), c.args);
        st.label("temporary account compared");
    }
    // its hops one after another
    if r0.is_some() {
        let mut f = e.clone();
        let mut prev: Option<u128> = None;
        let mut apart = true;
        // without news about prices in between
        let mut cs = c.clone();
        cs.args["skip_degen_price_sync"] = json!(true);
        let (r0, s0) = run(&cs);
        for (i, x) in acts.iter().enumerate() {
            let mut x = x.clone();
            let key = if by_in { "amount_in" } else { "amount_out" };
            if x.get(key).is_none() {
                x[key] = json!(prev.unwrap().to_string());
            }
            let mut ci = cs.clone();
            // (a list needs only what goes in at its beginning)
            let t = x["token_in"].as_str().unwrap().to_string();
            let short = !by_in
                && f.tv("get_return_by_output", json!({"pool_id": x["pool_id"], "token_in": t, "amount_out": x["amount_out"], "token_out": x["token_out"]})).map_or(false, |v| num(&v) > f.deposit_of(&me, &t));
            ci.args["actions"] = json!([x]);
            match exec(&mut f, &ci) {
                Some(v) => prev = Some(num(&v)),
                None if short => {
                    st.label("hop beyond the deposit");
                    apart = false;
                    break;
                }
                None => ensure!(false, "hops", "{} works but its hop {} alone fails: {}", c.method, i, c.args),
            }
        }
        let s3 = see(&f);
        ensure!(!apart || prev.map(|x| json!(x.to_string())) == r0, "hops", "{} gives {:?}, hop by hop {:?}: {}", c.method, r0, prev, c.args);
        ensure!(!apart || strip(&s0, &me) == strip(&s3, &me), "hops", "{} and its hops leave different states: {}: {}", c.method, diff(&s0, &s3), c.args);
        st.label(&format!("{} hops compared", acts.len()));
    }
    // as an instant transfer: what goes in comes from the wallet, what comes out goes there
    let (tin, x) = if by_in {
        if acts.iter().filter(|x| x.get("amount_in").is_some()).count() > 1 {
            (String::new(), 0)
        } else {
            (acts[0]["token_in"].as_str().unwrap().to_string(), num(&acts[0]["amount_in"]))
        }
    } else if acts.iter().filter(|x| x.get("amount_out").is_some()).count() > 1 {
        (String::new(), 0)
    } else {
        let t = acts[acts.len() - 1]["token_in"].as_str().unwrap().to_string();
        let x = a.ft[&(t.clone(), me.clone())];
        (t, x)
    };
    if x > 0 && x <= a.ft[&(tin.clone(), me.clone())] {
        let m = json!({"actions": acts, "referral_id": c.args["referral_id"], "skip_unwrap_near": true});
        let c4 = Call { signer: me.clone(), to: tin.clone(), method: "ft_transfer_call".into(), args: json!({"receiver_id": EX, "amount": x.to_string(), "msg": m.to_string()}), deposit: 1 };
        let (r4, s4) = run(&c4);
        // a trade that gives nothing can not be delivered; deposits may be too small for the plain way
        if r0.is_some() {
            ensure!(r4.is_some(), "instant", "{} works, as an instant transfer it fails: {}", c.method, c.args);
            ensure!(s4.s.dep == a.s.dep, "instant", "an instant transfer changes deposits: {}: {}", diff(&a, &s4), c.args);
            ensure!(s4.s.pools == s0.s.pools && s4.s.shares == s0.s.shares && s4.vols == s0.vols, "instant", "{} and the instant transfer leave different states: {}: {}", c.method, diff(&s0, &s4), c.args);
            for t in TOKENS {
                let d0 = s0.s.d(&me, t.id) as i128 - a.s.d(&me, t.id) as i128;
                let k = (t.id.to_string(), me.clone());
                let d4 = s4.ft[&k] as i128 - a.ft[&k] as i128;
                ensure!(d0 == d4, "instant", "{} moves {} {}, the instant transfer {}: {}", c.method, d0, t.id, d4, c.args);
            }
            st.label("instant transfer compared");
        } else if enough && by_in {
            ensure!(r4.is_none(), "instant", "{} fails, as an instant transfer it works: {}", c.method, c.args);
        }
    }
    if r0.is_some() {
        st.hit();
        st.label(&format!("{} works", c.method));
    } else {
        st.label(&format!("{} fails", c.method));
    }
    let _ = M::touched(&c);
    Ok(())
}
fn okay(r: &Option<Value>) -> &'static str {
    if r.is_some() { "works" } else { "fails" }
}
/// empty token entries are no difference
pub fn strip(s: &Seen, who: &str) -> (Snap, BTreeMap<(String, String), u128>, Vec<Vec<(B, B)>>) {
    let mut x = s.s.clone();
    if let Some(m) = x.dep.get_mut(who) {
        m.retain(|_, v| *v > 0);
    }
    x.dep.retain(|_, m| !m.is_empty());
    (x, s.ft.clone(), s.vols.clone())
}

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C06",
            "a generated state (up to 8 operations), one operation on forks of it: without bounds, with every bound exactly at the observed value, and with each bound one (or more) beyond; non-trivial: the operation succeeds and has an observable bound",
            1800,
            60_000,
            || {
                let liqd = (who(), 0u8..4, 0u8..10, amt_ok()).prop_map(|(by, of, pool, a)| Op::Liquidate { by, of, pool, a, min: 0 });
                let inst = (who4(), good_path(3), amt_ok(), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 1u8..4]).prop_map(|(who, path, a, refer, to)| Op::Instant { who, path, a, refer, to, echo: false, skip: 2, by_out: false });
                let ops = prop_oneof![5 => swaps(3), 3 => swap_outs(3), 8 => liq(), 2 => liqd, 3 => inst, 3 => zaps()].boxed();
                probe(ops, 0..8)
            },
            |p: &Probe, st| bounds(p, st),
        ),
        def(
            "C07",
            "a generated state (up to 8 operations), every quote and prediction that applies to an operation against its execution on a fork; non-trivial: quoted and executed",
            1600,
            60_000,
            || {
                let ops = prop_oneof![6 => swaps(1), 3 => swaps(3), 2 => swap_outs(1), 2 => swap_outs(3), 9 => liq(), 3 => zaps()].boxed();
                probe(ops, 0..8)
            },
            |p: &Probe, st| quotes(p, st),
        ),
        def(
            "C29",
            "a generated state (up to 6 operations) and one trade of up to 4 hops by every route on forks of it; non-trivial: the trade succeeds",
            1800,
            60_000,
            || {
                let ops = prop_oneof![5 => swaps(4), 3 => swap_outs(4)].boxed();
                probe(ops, 0..6)
            },
            |p: &Probe, st| routes(p, st),
        ),
    ]
}
pub fn zap_a3() -> BoxedStrategy<[Amt; 3]> {
    let f = || prop_oneof![2 => (1u16..=65535).prop_map(Amt::Frac), 1 => Just(Amt::All)].boxed();
    [f(), f(), f()].boxed()
}
