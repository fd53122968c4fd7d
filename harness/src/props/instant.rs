//! C09: instant swaps; C10: zaps. A transfer with instructions is executed in a generated state and
//! compared with the exact model (C09) or with the same steps taken one by one on a fork (C10).
use super::forks::*;
use super::settle;
use super::*;
use crate::chain::NEAR;
use crate::ensure;
use crate::model::{Fail, M};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    h: Hist,
    op: Op,
    faults: Vec<Fault>,
    twist: u8,
    k: u8,
    /// which ready receipt runs next
    order: Vec<u8>,
    /// storage of the small account, in tokens; more than 4: not registered
    room: u8,
    bot: u8,
}
fn msg_of(c: &Call) -> Value {
    serde_json::from_str(c.args["msg"].as_str().unwrap_or("")).unwrap_or(Value::Null)
}
fn set_msg(c: &mut Call, m: Value) {
    c.args["msg"] = json!(m.to_string());
}
fn tokens_of(acts: &Value) -> Vec<String> {
    let mut v: Vec<String> = acts.as_array().map(|a| a.iter().flat_map(|x| [x["token_in"].as_str().unwrap_or("").to_string(), x["token_out"].as_str().unwrap_or("").to_string()]).collect()).unwrap_or_default();
    v.sort();
    v.dedup();
    v.retain(|t| TOKENS.iter().any(|x| x.id == t));
    v
}
fn pick<'a>(v: &'a [String], k: u8) -> Option<&'a String> {
    v.get(k as usize % v.len().max(1))
}
fn prepare(h: &Hist, room: u8) -> Ex {
    let mut e = state(h);
    if room <= 4 {
        e.must(FRESH, "storage_deposit", json!({}), (102 + 148 * room as u128) * pow10(19));
    }
    e
}

fn instant(c: &Case, st: &mut Stats) -> Res {
    let mut e = prepare(&c.h, c.room);
    e.run(&Op::Fault(Fault::Bot(c.bot)), true);
    let mut call = match e.call_of(&c.op) {
        Some(x) => x,
        None => return Ok(()),
    };
    let me = call.signer.clone();
    let tin = call.to.clone();
    let mut m = msg_of(&call);
    let toks = tokens_of(&m["actions"]);
    // what is wrong, if anything
    let mut wrong: Option<&'static str> = None;
    let by_out = matches!(c.op, Op::Instant { by_out: true, .. });
    match c.twist {
        1 | 2 => {
            let p = e.pools();
            let mut s = e.snap(&SNAP_NONE);
            s.pools = p.clone();
            if let Some(Ok(o)) = M::new(&e, &p).apply(&call, &s) {
                let sent = o.sent.unwrap_or_default();
                let acts = m["actions"].as_array_mut().unwrap();
                let n = acts.len();
                if !by_out && n == 1 {
                    let out = acts[0]["token_out"].as_str().unwrap_or("").to_string();
                    let x = sent.get(&out).copied().unwrap_or(0);
                    acts[0]["min_amount_out"] = json!((x + c.twist as u128 - 1).to_string());
                    if c.twist == 2 {
                        wrong = Some("minimum not met");
                    }
                }
            }
        }
        3 => {
            if let Some(t) = pick(&toks, c.k) {
                e.must(OWNER, "extend_frozenlist_tokens", json!({ "tokens": [t] }), 1);
                wrong = Some("frozen token");
            }
        }
        4 => {
            let rest: Vec<String> = TOKENS.iter().map(|t| t.id.to_string()).filter(|t| !toks.contains(t) && *t != tin).collect();
            if let Some(t) = pick(&rest, c.k) {
                e.must(OWNER, "extend_frozenlist_tokens", json!({ "tokens": [t] }), 1);
            }
        }
        5 => {
            e.must(if c.k & 1 == 0 { OWNER } else { GUARD }, "change_state", json!({"state": "Paused"}), 1);
            wrong = Some("paused");
        }
        6 => {
            m["actions"] = json!([]);
            wrong = Some("no actions");
        }
        7 => {
            let s = m.to_string();
            call.args["msg"] = json!(s[..s.len() - 1 - c.k as usize % (s.len() - 2)].to_string());
            wrong = Some("garbled message");
        }
        8 => {
            m["client_echo"] = json!("x");
            m["swap_out_recipient"] = json!(user(c.k));
            wrong = Some("both recipient and echo");
        }
        9 => {
            let mut a = m["actions"][0].clone();
            let o = a.as_object_mut().unwrap();
            if by_out {
                o.remove("max_amount_in");
                o.insert("min_amount_out".into(), json!("0"));
            } else {
                o.remove("min_amount_out");
                o.remove("amount_in");
            }
            o.insert(if by_out { "amount_in" } else { "amount_out" }.into(), json!("1000"));
            m["actions"].as_array_mut().unwrap().push(a);
            wrong = Some("mixed kinds");
        }
        10 if m["client_echo"].is_null() => m["swap_out_recipient"] = json!(EX),
        _ => {}
    }
    if c.twist != 7 {
        set_msg(&mut call, m.clone());
    }
    if wrong.is_none() && !m["client_echo"].is_null() {
        let has = |v: &str, x: &str| e.v(v, json!({})).as_array().map_or(false, |a| a.iter().any(|y| y == x));
        let echo_ok = has("get_secure_sender_whitelist", &me) || (has("get_client_echo_sender_id_whitelist", &me) && has("get_client_echo_token_id_whitelist", &tin));
        if !m["swap_out_recipient"].is_null() {
            wrong = Some("both recipient and echo");
        } else if !echo_ok {
            wrong = Some("echo not listed");
        }
    }
    for f in &c.faults {
        e.run(&Op::Fault(f.clone()), true);
    }
    let to = m["swap_out_recipient"].as_str().unwrap_or(&me).to_string();
    let spec = SNAP_ALL;
    let mut a = e.snap(&spec);
    let first = see(&e);
    let near0 = e.w.balance(&to);
    let mut mm = M::new(&e, &a.pools);
    let expected = if wrong.is_some() { None } else { mm.apply(&call, &a) };
    let x = e.w.tx(&call.signer, &call.to, &call.method, call.args.clone(), call.deposit);
    if !x.ok() {
        st.label("input token refuses");
        return Ok(());
    }
    let mut run = vec![x];
    let mut done: Option<bool> = None;
    let mut w = settle::W::default();
    let mut outs: Vec<settle::Out> = vec![];
    let mut got: BTreeMap<(String, String), u128> = BTreeMap::new();
    let mut near = 0u128;
    let mut i = 0;
    while let Some(x) = e.w.step(c.order.get(i).copied().unwrap_or(0) as usize, None) {
        i += 1;
        let b = e.snap(&spec);
        if x.receiver == EX && x.method == "ft_on_transfer" && x.predecessor == tin && done.is_none() {
            done = Some(x.ok());
            if x.ok() {
                ensure!(wrong.is_none(), "accepted", "{} by {} is executed although: {}; {:?}", call.args, me, wrong.unwrap(), x.result);
                ensure!(x.json() == json!("0"), "input-returned", "{} is executed and {} of the input returned", call.args, x.json());
                ensure!(a.dep == b.dep && a.lost == b.lost && a.stor == b.stor, "deposits-changed", "{} by {} changed deposits: {:?}", call.args, me, settle::changes(&a, &b));
                outs = settle::outs_of(&e, &x, &to);
                let sent: BTreeMap<String, u128> = outs.iter().map(|o| (o.token.clone(), o.amount)).collect();
                match &expected {
                    Some(Ok(o)) => {
                        ensure!(outs.len() == sent.len() && Some(&sent) == o.sent.as_ref(), "wrong-output", "{} by {} sends {:?}, expected {:?}", call.args, me, outs, o.sent);
                        for (j, (p, q)) in mm.pools.iter().zip(&b.pools).enumerate() {
                            ensure!(p.amounts == q.amounts && p.supply == q.supply, "pools", "{} by {}: pool {} has {:?} / {}, expected {:?} / {}", call.args, me, j, q.amounts, q.supply, p.amounts, p.supply);
                        }
                    }
                    Some(Err(Fail::Range)) => {}
                    r => ensure!(false, "accepted", "{} by {} is executed; the model says {:?}", call.args, me, r),
                }
                for o in &outs {
                    let unwrap = o.token == WRAP && m["skip_unwrap_near"] == json!(false) && m["client_echo"].is_null();
                    ensure!(o.to == to && o.unwrap == unwrap && o.echo == !m["client_echo"].is_null() && o.callback.is_some(), "wrong-delivery", "{} by {}: {:?} instead of to {}, unwrapped {}", call.args, me, o, to, unwrap);
                }
            } else {
                ensure!(a == b, "refused-with-effect", "{} by {} is refused, but {}", call.args, me, diff_snap(&a, &b));
                let fine = matches!(expected, Some(Ok(_)));
                ensure!(!fine, "refused", "{} by {} is refused though valid: {:?}; expected {:?}", call.args, me, x.result, expected);
            }
        }
        if let Some(o) = outs.iter().find(|o| o.callback == Some(x.id)) {
            if let Some(crate::vm::PromiseRes::Ok(ans)) = x.inputs.first() {
                let n = if o.echo { used(ans, o.amount) } else { o.amount };
                if o.unwrap {
                    near += n;
                } else {
                    *got.entry((o.token.clone(), o.to.clone())).or_insert(0) += n;
                }
            }
        }
        let r = OpRun { call: None, executed: vec![x] };
        w.step(&e, &Op::Drain, &r, &a, &b, st)?;
        run.extend(r.executed);
        a = b;
    }
    let last = see(&e);
    w.finish(&mut e, &a, st)?;
    match done {
        None => return Ok(()),
        Some(false) => {
            ensure!(first == last, "not-returned", "{} by {} is refused, but {}", call.args, me, diff(&first, &last));
            st.label(&format!("refused: {}", wrong.unwrap_or(match expected {
                Some(Err(Fail::Must(s))) => s,
                _ => "range",
            })));
            if wrong.is_some() || !c.faults.is_empty() {
                st.hit();
            }
        }
        Some(true) => {
            let x = num(&call.args["amount"]);
            for ((t, h), v) in &first.ft {
                if h == EX {
                    continue;
                }
                let mut want = *v + got.get(&(t.clone(), h.clone())).copied().unwrap_or(0);
                if *t == tin && *h == me {
                    want -= x;
                }
                let have = last.ft[&(t.clone(), h.clone())];
                ensure!(want == have, "wallets", "{} by {}: {} has {} {}, expected {}", call.args, me, h, have, t, want);
            }
            if to != EX && near > 0 {
                let fee = if to == me { 1 } else { 0 };
                ensure!(e.w.balance(&to) == near0 + near - fee, "near", "{} by {}: {} got {} NEAR, expected {}", call.args, me, to, e.w.balance(&to) as i128 - near0 as i128, near);
                st.label("paid in NEAR");
            }
            let d: u128 = got.values().sum::<u128>() + near;
            st.label(if outs.len() > 1 { "several outputs" } else { "one output" });
            st.label(if d == 0 { "executed, nothing delivered" } else if to == me { "delivered to the sender" } else { "delivered to the recipient" });
            if !outs.is_empty() {
                st.hit();
            }
        }
    }
    Ok(())
}
fn diff_snap(a: &Snap, b: &Snap) -> String {
    let s = |x: &Snap| Seen { s: x.clone(), ft: Default::default(), vols: vec![] };
    diff(&s(a), &s(b))
}

fn zap(c: &Case, st: &mut Stats) -> Res {
    let mut e = prepare(&c.h, c.room);
    let mut call = match e.call_of(&c.op) {
        Some(x) => x,
        None => return Ok(()),
    };
    let me = call.signer.clone();
    let tin = call.to.clone();
    let mut m = msg_of(&call);
    let x = num(&call.args["amount"]);
    let pools = e.pools();
    let mut toks = tokens_of(&m["hot_zap_actions"]);
    for i in m["add_liquidity_infos"].as_array().unwrap() {
        if let Some(p) = pools.get(num(&i["pool_id"]) as usize) {
            toks.extend(p.tokens.clone());
        }
    }
    toks.sort();
    toks.dedup();
    let mut wrong: Option<&'static str> = None;
    let mut poor = me == FRESH || me == OWNER;
    let all0 = e.snap(&SNAP_ALL);
    match c.twist {
        1 => {
            if let Some((d, u)) = all0.stor.get(&me) {
                let keep = c.k as u128 % 4 * 148 * pow10(19);
                if d - u > keep {
                    e.w.tx_drain(&me, EX, "storage_withdraw", json!({"amount": (d - u - keep).to_string()}), 1);
                }
                poor = true;
            }
        }
        2 => {
            if let Some(t) = pick(&toks, c.k) {
                e.must(OWNER, "extend_frozenlist_tokens", json!({ "tokens": [t] }), 1);
                wrong = Some("frozen token");
            }
        }
        3 => {
            let rest: Vec<String> = TOKENS.iter().map(|t| t.id.to_string()).filter(|t| !toks.contains(t)).collect();
            if let Some(t) = pick(&rest, c.k) {
                e.must(OWNER, "extend_frozenlist_tokens", json!({ "tokens": [t] }), 1);
            }
        }
        4 => {
            e.must(if c.k & 1 == 0 { OWNER } else { GUARD }, "change_state", json!({"state": "Paused"}), 1);
            wrong = Some("paused");
        }
        5 => {
            let n = m["add_liquidity_infos"].as_array().unwrap().len();
            let o = m["add_liquidity_infos"][c.k as usize % n].as_object_mut().unwrap();
            let p = pools.get(num(&o["pool_id"]) as usize);
            o.remove(if p.map_or(false, |p| p.simple()) { "min_amounts" } else { "min_shares" });
            wrong = Some("missing bound");
        }
        6 | 7 => {
            if let Some(Ok(o)) = M::new(&e, &pools).apply(&call, &all0) {
                let l = m["add_liquidity_infos"].as_array().unwrap().len() - 1;
                let p = num(&m["add_liquidity_infos"][l]["pool_id"]) as usize;
                if !pools[p].simple() && o.shares.len() == l + 1 {
                    let s = o.shares[l].3;
                    m["add_liquidity_infos"][l]["min_shares"] = json!((s + c.twist as u128 - 6).to_string());
                    if c.twist == 7 {
                        wrong = Some("minimum shares not met");
                    }
                }
            }
        }
        8 => {
            let un: Vec<String> = toks.iter().filter(|t| !t.ends_with(".bridge.near") && *t != "cheap.near").cloned().collect();
            if let Some(t) = pick(&un, c.k) {
                e.must(OWNER, "remove_whitelisted_tokens", json!({ "tokens": [t] }), 1);
                if all0.dep.get(&me).map_or(true, |d| !d.contains_key(t)) {
                    wrong = Some("token not listed");
                }
            }
        }
        9 => {
            m[if c.k & 1 == 0 { "add_liquidity_infos" } else { "hot_zap_actions" }] = json!([]);
            wrong = Some("empty list");
        }
        10 => {
            let l = m["add_liquidity_infos"].as_array().unwrap().len() - 1;
            m["add_liquidity_infos"][l]["pool_id"] = json!(POOLS + c.k as usize);
            wrong = Some("no such pool");
        }
        11 => {
            let s = m.to_string();
            call.args["msg"] = json!(s[..s.len() - 1 - c.k as usize % (s.len() - 2)].to_string());
            wrong = Some("garbled message");
        }
        12 => m["referral_id"] = json!(REFER),
        _ => {}
    }
    if c.twist != 11 {
        set_msg(&mut call, m.clone());
    }
    let a = see(&e);
    let stor = e.snap(&SnapSpec { stor: true, ..SNAP_NONE }).stor;
    if wrong.is_none() && !stor.contains_key(&me) {
        wrong = Some("sender not registered");
    }
    let cheap = "cheap.near".to_string();
    if wrong.is_none() && toks.contains(&cheap) && a.s.dep.get(&me).map_or(true, |d| !d.contains_key(&cheap)) {
        wrong = Some("token not listed");
    }
    let mut mm = M::new(&e, &a.s.pools);
    let expected = if wrong.is_some() { None } else { mm.apply(&call, &a.s) };
    let mut f = e.clone();
    let r = e.w.tx_drain(&call.signer, &call.to, &call.method, call.args.clone(), call.deposit);
    let inner = match r.iter().find(|x| x.receiver == EX && x.method == "ft_on_transfer") {
        Some(i) => i,
        None => return Ok(()),
    };
    let b = see(&e);
    let stor2 = e.snap(&SnapSpec { stor: true, ..SNAP_NONE }).stor;
    for (h, (d, u)) in &stor {
        let (d2, u2) = stor2.get(h).copied().unwrap_or((0, 0));
        ensure!(h == &me || (*d, *u) == (d2, u2), "others-storage", "{} by {} changes the storage credit of {}", call.args, me, h);
        ensure!(d2 <= *d && u2 <= d2.max(*u), "storage", "{} by {}: storage {:?} becomes {:?}", call.args, me, (d, u), (d2, u2));
    }
    if !inner.ok() {
        ensure!(a == b && stor == stor2, "refused-with-effect", "{} by {} is refused, but {}", call.args, me, diff(&a, &b));
        ensure!(poor || !matches!(expected, Some(Ok(_))), "refused", "{} by {} is refused though valid: {:?}; expected {:?}", call.args, me, inner.result, expected);
        let why = wrong.unwrap_or(match &expected {
            Some(Err(Fail::Must(s))) => s,
            Some(Err(Fail::Range)) => "range",
            _ => "storage",
        });
        st.label(&format!("refused: {}", why));
        // valid but for one reason
        let _ = f;
        if wrong.is_some() || poor {
            st.hit();
        }
        return Ok(());
    }
    ensure!(wrong.is_none(), "accepted", "{} by {} is executed although: {}", call.args, me, wrong.unwrap());
    ensure!(matches!(expected, Some(Ok(_)) | Some(Err(Fail::Range))), "accepted", "{} by {} is executed; the model says {:?}", call.args, me, expected);
    ensure!(inner.json() == json!("0"), "input-returned", "{} by {} returns {}", call.args, me, inner.json());
    // the same, step by step
    let step = |f: &mut Ex, to: &str, method: &str, args: Value, dep: u128| -> Res {
        let r = f.w.tx_drain(&me, to, method, args.clone(), dep);
        let ok = r[0].ok() && r.iter().all(|x| x.method != "ft_on_transfer" || x.ok());
        ensure!(ok, "step-fails", "{} by {} is executed, but as a separate step {} {} fails: {:?}", call.args, me, method, args, r[0].result);
        Ok(())
    };
    f.w.near.insert(me.clone(), 1_000_000 * NEAR);
    f.must(OWNER, "storage_deposit", json!({"account_id": me}), NEAR);
    step(&mut f, &tin, "ft_transfer_call", json!({"receiver_id": EX, "amount": x.to_string(), "msg": ""}), 1)?;
    let mut acts = m["hot_zap_actions"].clone();
    if acts[0].get("min_amount_out").is_some() && acts[0]["amount_in"].is_null() {
        acts[0]["amount_in"] = json!(x.to_string());
    }
    // prices that arrive in between would change what follows
    step(&mut f, EX, "execute_actions", json!({"actions": acts, "referral_id": m["referral_id"], "skip_degen_price_sync": true}), NEAR / 10)?;
    for i in m["add_liquidity_infos"].as_array().unwrap() {
        let p = num(&i["pool_id"]) as usize;
        if a.s.pools[p].simple() {
            step(&mut f, EX, "add_liquidity", json!({"pool_id": p, "amounts": i["amounts"], "min_amounts": i["min_amounts"]}), NEAR / 10)?;
        } else {
            step(&mut f, EX, "add_stable_liquidity", json!({"pool_id": p, "amounts": i["amounts"], "min_shares": i["min_shares"]}), NEAR / 10)?;
        }
    }
    let g = see(&f);
    let (mut x1, mut x2) = (strip(&b, &me), strip(&g, &me));
    // news about prices
    for p in x1.0.pools.iter_mut().chain(x2.0.pools.iter_mut()) {
        if p.degen() {
            p.rates.clear();
        }
    }
    ensure!(x1 == x2, "differs", "{} by {} differs from its steps one by one: {}", call.args, me, diff(&b, &g));
    // nobody else
    for h in HOLDERS {
        for t in TOKENS {
            ensure!(h == me || a.s.d(h, t.id) == b.s.d(h, t.id), "others", "{} by {} changes {}'s deposit of {}", call.args, me, h, t.id);
        }
        for p in 0..POOLS {
            ensure!(h == me || b.s.sh(h, p) >= a.s.sh(h, p), "others", "{} by {} takes shares from {}", call.args, me, h);
            ensure!(h == me || h == EX || h == REFER || a.s.sh(h, p) == b.s.sh(h, p), "others", "{} by {} changes {}'s shares of pool {}", call.args, me, h, p);
        }
    }
    ensure!(a.s.locks == b.s.locks && a.s.lost == b.s.lost, "others", "{} by {}: {}", call.args, me, diff(&a, &b));
    let left = TOKENS.iter().any(|t| b.s.d(&me, t.id) > a.s.d(&me, t.id));
    st.label(if left { "executed with leftovers" } else { "executed without leftovers" });
    if poor {
        st.label("executed with little storage credit");
    }
    for i in m["add_liquidity_infos"].as_array().unwrap() {
        st.label(&format!("adds to {}", a.s.pools[num(&i["pool_id"]) as usize].kind));
    }
    st.hit();
    Ok(())
}

fn weighted_twist(n: u8) -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 2 => 1u8..=n].boxed()
}
fn case(op: BoxedStrategy<Op>, n: u8) -> BoxedStrategy<Case> {
    let fault = prop_oneof![
        1 => (0u8..8).prop_map(|t| Fault::TokenPaused(t, true)),
        2 => (0u8..8, 0u8..7).prop_map(|(t, a)| Fault::Blocked(t, a, true)),
    ];
    (hist(STATE, 0..5), op, prop::collection::vec(fault, 0..6), weighted_twist(n), any::<u8>(), prop::collection::vec(0u8..4, 0..12), 0u8..7, any::<u8>())
        .prop_map(|(h, op, faults, twist, k, order, room, bot)| Case { h, op, faults, twist, k, order, room, bot })
        .boxed()
}

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C09",
            "a generated state, one transfer with swap instructions (by any account, to any recipient, possibly invalid in one way), tokens that fail to deliver, receipts in generated order; non-trivial: it was executed with at least one output, or refused for a stated reason",
            1500,
            60_000,
            || {
                let who = prop_oneof![8 => 0u8..4, 2 => Just(4u8), 3 => Just(5u8), 1 => Just(6u8)];
                let op = (who, good_path(3), amt_ok(), any::<bool>(), prop_oneof![3 => Just(0u8), 3 => 1u8..7], prop::bool::weighted(0.15), 0u8..8, prop::bool::weighted(0.3), prop_oneof![3 => Just(0u8), 1 => any::<u8>()])
                    .prop_map(|(who, mut path, a, refer, to, echo, skip, by_out, split)| {
                        path.split = split;
                        Op::Instant { who, path, a, refer, to: if echo { 0 } else { to }, echo, skip, by_out }
                    })
                    .boxed();
                case(op, 10)
            },
            instant,
        ),
        def(
            "C10",
            "a generated state, one zap (by any account, possibly invalid in one way) and the same steps one by one on a fork; non-trivial: it was executed and compared, or refused for a stated reason",
            1300,
            60_000,
            || {
                let who = prop_oneof![12 => 0u8..4, 1 => Just(4u8), 2 => Just(5u8), 1 => Just(6u8)];
                let op = (who, good_path(2), amt_ok(), prop::collection::vec(0u8..10, 1..3), prop::collection::vec(zap_a3(), 2), any::<bool>())
                    .prop_map(|(who, mut path, a, pools, adds, half)| {
                        path.split = half as u8;
                        Op::Zap { who, path, a, pools, adds, min: 0 }
                    })
                    .boxed();
                case(op, 12)
            },
            zap,
        ),
    ]
}
