//! C16 (pause), C17 (frozen tokens), C18 (listed tokens, echo): one operation on forks of one state
//! that differ only in the gate.
use super::forks::*;
use super::*;
use crate::chain::NEAR;
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// everything observable, with storage credits and NEAR
#[derive(PartialEq, Debug)]
pub struct Full {
    pub seen: Seen,
    pub near: Vec<(String, u128)>,
    pub hosts: Vec<String>,
}
const WITH_STOR: SnapSpec = SNAP_ALL;
pub fn full(e: &Ex) -> Full {
    let mut seen = see(e);
    seen.s = e.snap(&WITH_STOR);
    let near = HOLDERS.iter().chain([&EX, &"mallory.near"]).map(|h| (h.to_string(), e.w.balance(h))).collect();
    let hosts = [FARM, BURROW].iter().map(|h| format!("{:?}", e.w.model(h).shadow().rec.iter().filter(|x| *x.1 > 0).collect::<Vec<_>>())).collect();
    Full { seen, near, hosts }
}
pub fn fdiff(a: &Full, b: &Full) -> String {
    let mut s = diff(&a.seen, &b.seen);
    for (x, y) in a.near.iter().zip(&b.near) {
        if x != y {
            s.push_str(&format!("; NEAR of {} {} -> {}", x.0, x.1, y.1));
        }
    }
    if a.hosts != b.hosts {
        s.push_str(&format!("; hosts {:?} -> {:?}", a.hosts, b.hosts));
    }
    s
}
/// executes a call to its end; did the exchange accept it?
pub fn go(e: &mut Ex, c: &Call) -> (bool, Vec<Executed>) {
    let r = e.w.tx_drain(&c.signer, &c.to, &c.method, c.args.clone(), c.deposit);
    let main = if c.to == EX { r.first() } else { r.iter().find(|x| x.receiver == EX && x.method == "ft_on_transfer") };
    (main.map_or(false, |x| x.ok()), r)
}
/// a refused call leaves only the token contract's one-yocto fee
pub fn unchanged(a: &Full, b: &Full, c: &Call) -> bool {
    let mut b2 = Full { seen: Seen { s: b.seen.s.clone(), ft: b.seen.ft.clone(), vols: b.seen.vols.clone() }, near: b.near.clone(), hosts: b.hosts.clone() };
    if c.to != EX {
        for x in b2.near.iter_mut().filter(|x| x.0 == c.signer) {
            x.1 += c.deposit;
        }
        // (nothing if the token refused the transfer itself)
        return b2 == *a || *b == *a;
    }
    *b == *a
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    h: Hist,
    /// operations whose settlement is still open
    open: Vec<Op>,
    steps: Vec<u8>,
    ops: Vec<Op>,
    k: u8,
}
fn reach(c: &Case, st: &mut Stats, prep: bool) -> Ex {
    let mut e = state(&c.h);
    if prep {
        prepare(&mut e, &c.ops);
    }
    for op in &c.open {
        e.run(op, false);
    }
    // arriving transfers reach the exchange before the gate closes
    while let Some(i) = e.w.ready().iter().position(|i| e.w.pending[*i].receiver == EX && e.w.pending[*i].actions.iter().any(|a| matches!(a, crate::vm::Action::Call { method, .. } if method == "ft_on_transfer"))) {
        e.w.step(i, None);
    }
    for s in &c.steps {
        e.w.step(*s as usize, None);
    }
    if !e.w.pending.is_empty() {
        st.label("settlements open at the time");
    }
    e
}

/// makes operations that need a history of their own possible
fn prepare(e: &mut Ex, ops: &[Op]) {
    for op in ops {
        match op {
            // a failed withdrawal of an account that has no room for it
            Op::Claim { who, tok } if *tok < 8 && TOKENS[*tok as usize].id != WRAP => {
                let t = TOKENS[*tok as usize].id;
                if e.deposit_of(actor(*who), t) > 0 {
                    let w = actor(*who);
                    let d = e.deposit_of(w, t);
                    e.run(&Op::Fault(Fault::Blocked(*tok, *who, true)), true);
                    e.w.tx(w, EX, "withdraw", json!({"token_id": t, "amount": d.to_string(), "unregister": true}), 1);
                    let b = e.v("storage_balance_of", json!({ "account_id": w }));
                    if !b.is_null() {
                        e.w.tx(w, EX, "storage_withdraw", json!({"amount": b["available"]}), 1);
                    }
                    e.w.drain();
                    e.run(&Op::Fault(Fault::Blocked(*tok, *who, false)), true);
                    e.run(&Op::StorDeposit { who: *who, to: *who, only: false, milli: 100 }, true);
                }
            }
            Op::Liquidate { of, pool, .. } => {
                let s = Op::Shadow { who: *of % 4, pool: *pool, kind: 1, a: Some(Amt::Frac(40_000)), poor: false };
                e.run(&s, true);
            }
            _ => {}
        }
    }
}

fn pause(c: &Case, st: &mut Stats) -> Res {
    let e = reach(c, st, true);
    let by = if c.k & 1 == 0 { OWNER } else { GUARD };
    let mut p = e.clone();
    let mut f = e;
    let r = p.w.tx(by, EX, "change_state", json!({"state": "Paused"}), 1);
    ensure!(r.ok(), "cannot-pause", "{} can not pause: {:?}", by, r.result);
    // what was under way settles as ever
    let n = p.w.pending.len();
    if c.k & 2 == 0 {
        p.w.drain();
        f.w.drain();
        let (x, mut y) = (full(&p), full(&f));
        for z in y.near.iter_mut() {
            if z.0 == by {
                z.1 -= 1;
            }
            if z.0 == EX {
                z.1 += 1;
            }
        }
        ensure!(x == y, "open-settlements", "{} receipts under way settle differently while paused: {}", n, fdiff(&y, &x));
    } else {
        p.w.pending.clear();
        f.w.pending.clear();
    }
    let mut hit = n > 0 && c.k & 2 == 0;
    for op in &c.ops {
        let call = match p.call_of(op) {
            Some(x) => x,
            None => continue,
        };
        let a = full(&p);
        let mut g = f.clone();
        let would = go(&mut g, &call).0;
        let (ok, r) = go(&mut p, &call);
        let b = full(&p);
        ensure!(!ok, "works-while-paused", "{} by {} works while paused: {:?}", op_name(op), call.signer, call);
        ensure!(unchanged(&a, &b, &call), "effect-while-paused", "{} by {} is refused while paused, but {}; {}", op_name(op), call.signer, fdiff(&a, &b), show(&OpRun { call: None, executed: r }));
        st.label(&format!("{} while paused{}", op_name(op), if would { "" } else { " (invalid anyway)" }));
        hit |= would;
    }
    // only the owner resumes
    for who in [GUARD, user(c.k), BURROW, FARM] {
        let a = full(&p);
        p.w.near.entry(who.into()).or_insert(NEAR);
        let r = p.w.tx(who, EX, "change_state", json!({"state": "Running"}), 1);
        ensure!(!r.ok() && full(&p) == a, "resumed", "{} resumes the exchange", who);
        ensure!(p.v("metadata", json!({}))["state"] == "Paused", "resumed", "{} resumes the exchange", who);
    }
    let r = p.w.tx(OWNER, EX, "change_state", json!({"state": "Running"}), 1);
    ensure!(r.ok(), "cannot-resume", "the owner can not resume: {:?}", r.result);
    // and all is as before
    let near = |x: &Full| -> Vec<(String, u128)> { x.near.iter().filter(|z| USERS.contains(&&z.0[..])).cloned().collect() };
    for op in &c.ops {
        let call = match f.call_of(op) {
            Some(x) => x,
            None => continue,
        };
        let (a, _) = go(&mut f, &call);
        let (b, r) = go(&mut p, &call);
        let (mut x, y) = (full(&f), full(&p));
        if near(&x).iter().zip(near(&y)).all(|(u, v)| u.1 >= v.1 && u.1 - v.1 <= 50) {
            x.near = y.near.clone();
        }
        ensure!(a == b && x == y, "resumed-differs", "{} by {} after resuming differs from without a pause: {} and {}: {}; {}", op_name(op), call.signer, a, b, fdiff(&x, &y), show(&OpRun { call: None, executed: r }));
    }
    if hit {
        st.hit();
    }
    Ok(())
}

/// the tokens an operation works on
pub fn involved(e: &Ex, c: &Call) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    let pools = e.pools();
    fn acts(x: &Value, v: &mut BTreeSet<String>) {
        for a in x.as_array().into_iter().flatten() {
            for k in ["token_in", "token_out"] {
                v.insert(a[k].as_str().unwrap_or("").to_string());
            }
        }
    }
    let pool = |i: &Value, v: &mut BTreeSet<String>| {
        if let Some(p) = i.as_u64().and_then(|i| pools.get(i as usize)) {
            v.extend(p.tokens.clone());
        }
    };
    match &c.method[..] {
        "swap" | "swap_by_output" | "execute_actions" | "execute_actions_in_va" => acts(&c.args["actions"], &mut v),
        "add_liquidity" | "add_stable_liquidity" | "remove_liquidity" | "remove_liquidity_by_tokens" => pool(&c.args["pool_id"], &mut v),
        "withdraw" | "claim_lostfound" => {
            v.insert(c.args["token_id"].as_str().unwrap_or("").to_string());
        }
        "on_burrow_liquidation" => {
            let p: u64 = c.args["shadow_id"].as_str().unwrap().rsplit('-').next().unwrap().parse().unwrap();
            pool(&json!(p), &mut v);
        }
        "ft_transfer_call" => {
            let m: Value = serde_json::from_str(c.args["msg"].as_str().unwrap_or("")).unwrap_or(Value::Null);
            if c.args["msg"] == "" {
                v.insert(c.to.clone());
            }
            acts(&m["actions"], &mut v);
            acts(&m["hot_zap_actions"], &mut v);
            for i in m["add_liquidity_infos"].as_array().into_iter().flatten() {
                pool(&i["pool_id"], &mut v);
            }
        }
        _ => {}
    }
    v
}

fn frozen(c: &Case, st: &mut Stats) -> Res {
    let mut e = reach(c, st, false);
    e.w.drain();
    prepare(&mut e, &c.ops);
    // mostly a token of the first operation
    let first: Vec<String> = c.ops.iter().find_map(|o| e.call_of(o)).map(|x| involved(&e, &x).into_iter().collect()).unwrap_or_default();
    let t = match TOKENS.iter().find(|t| !first.is_empty() && t.id == first[c.k as usize / 32 % first.len()]) {
        Some(t) if c.k & 8 == 0 => t.id,
        _ => tok(c.k as usize).id,
    };
    let f = e.clone();
    let mut p = e;
    p.must(if c.k & 16 == 0 { OWNER } else { GUARD }, "extend_frozenlist_tokens", json!({ "tokens": [t] }), 1);
    for op in &c.ops {
        let call = match p.call_of(op) {
            Some(x) => x,
            None => continue,
        };
        let touches = involved(&p, &call).contains(t);
        let mut q = p.clone();
        let a = full(&q);
        let (ok, r) = go(&mut q, &call);
        let b = full(&q);
        let run = OpRun { call: None, executed: r };
        let mut g = f.clone();
        let (would, _) = go(&mut g, &call);
        if touches {
            ensure!(!ok, "works-though-frozen", "{} by {} works though {} is frozen: {:?}", op_name(op), call.signer, t, call);
            ensure!(unchanged(&a, &b, &call), "effect-though-frozen", "{} by {} is refused as {} is frozen, but {}; {}", op_name(op), call.signer, t, fdiff(&a, &b), show(&run));
            st.label(&format!("{} of a frozen token{}", op_name(op), if would { "" } else { " (invalid anyway)" }));
            if would {
                st.hit();
            }
        } else {
            let (mut x, y) = (full(&g), full(&q));
            x.near = y.near.clone();
            ensure!(ok == would && x == y, "others-affected", "{} by {} does not involve {}, but freezing that changes it: {} and {}: {}; {}", op_name(op), call.signer, t, would, ok, fdiff(&x, &y), show(&run));
            if ok {
                st.label("operation on other tokens");
            }
        }
        // unfrozen again
        let mut u = p.clone();
        u.must(OWNER, "remove_frozenlist_tokens", json!({ "tokens": [t] }), 1);
        let (again, r) = go(&mut u, &call);
        let (mut x, y) = (full(&g), full(&u));
        x.near = y.near.clone();
        ensure!(again == would && x == y, "not-restored", "{} by {} after unfreezing {} differs: {} and {}: {}; {}", op_name(op), call.signer, t, would, again, fdiff(&x, &y), show(&OpRun { call: None, executed: r }));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lists {
    h: Hist,
    /// tokens taken off the list
    off: u8,
    /// who gives up which registrations of empty tokens, after withdrawing them
    unreg: Vec<(u8, u8)>,
    reg: Vec<(u8, u8)>,
    postfix: u8,
    echo: Vec<(u8, bool)>,
    wild: u8,
    /// echo lists emptied
    bare: u8,
    /// the lending market itself asks for an echo
    lender: bool,
    op: Op,
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect()
}
fn matches(list: &[String], id: &str) -> bool {
    list.iter().any(|x| x == id || (x.starts_with('*') && id.ends_with(&x[1..])))
}
const POST: [&str; 4] = [".bridge.near", "c.near", "near", ".factory.near"];
fn listed(c: &Lists, st: &mut Stats) -> Res {
    let mut e = state(&c.h);
    for (w, t) in &c.unreg {
        e.run(&Op::Withdraw { who: *w, tok: 8 + *t, a: Amt::All, unreg: true, skip: 0 }, true);
    }
    for (w, t) in &c.reg {
        e.run(&Op::RegTokens { who: *w, mask: 1 << (t % 8), on: true }, true);
    }
    let off: Vec<&str> = TOKENS.iter().enumerate().filter(|(i, t)| c.off & (1 << i) != 0 && t.whitelisted && !t.id.contains("bridge")).map(|(_, t)| t.id).collect();
    e.must(OWNER, "remove_whitelisted_tokens", json!({ "tokens": off }), 1);
    let mut post = vec![".bridge.near"];
    match c.postfix % 4 {
        1 => {
            e.must(OWNER, "remove_auto_whitelisted_postfix", json!({ "postfixes": post }), 1);
            post.clear();
        }
        2 | 3 => {
            let x = POST[c.postfix as usize / 4 % 4];
            e.must(GUARD, "extend_auto_whitelisted_postfix", json!({ "postfixes": [x] }), 1);
            post.push(x);
        }
        _ => {}
    }
    for (t, on) in &c.echo {
        e.run(&Op::Echo { tok: *t, on: *on }, true);
    }
    if c.wild & 3 == 0 {
        let (m, k) = [("extend_client_echo_token_id_whitelist", "token_ids"), ("extend_client_echo_sender_id_whitelist", "sender_ids"), ("extend_secure_sender_whitelist", "sender_ids")][c.wild as usize / 4 % 3];
        let w = ["*.near", "*.bridge.near", "*.other.near"][c.wild as usize / 16 % 3];
        e.must(OWNER, m, json!({ k: [w] }), 1);
        st.label("wildcard in an echo list");
    }
    for (i, (list, m, k)) in [("get_client_echo_token_id_whitelist", "remove_client_echo_token_id_whitelist", "token_ids"), ("get_client_echo_sender_id_whitelist", "remove_client_echo_sender_id_whitelist", "sender_ids"), ("get_secure_sender_whitelist", "remove_secure_sender_whitelist", "sender_ids")].iter().enumerate() {
        let l = e.v(list, json!({}));
        if c.bare >> i & 1 == 1 && l.as_array().map_or(0, |x| x.len()) > 0 {
            e.must(OWNER, m, json!({ *k: l }), 1);
            st.label("an echo list is empty");
        }
    }
    let mut call = match e.call_of(&c.op) {
        Some(x) => x,
        None => return Ok(()),
    };
    let asks_echo = serde_json::from_str::<Value>(call.args["msg"].as_str().unwrap_or("")).map_or(false, |m| m["actions"].is_array() && m["client_echo"].is_string());
    let lender = c.lender && asks_echo;
    if lender {
        call.signer = BURROW.into();
        let x = num(&call.args["amount"]);
        e.w.model_mut(&call.to).token_mut().mint(BURROW, x);
        e.w.near.insert(BURROW.into(), NEAR);
        if c.wild & 64 == 0 && !matches(&strings(&e.v("get_secure_sender_whitelist", json!({}))), BURROW) {
            e.must(OWNER, "extend_secure_sender_whitelist", json!({ "sender_ids": [BURROW] }), 1);
        }
    }
    let me = call.signer.clone();
    let white: BTreeSet<String> = TOKENS.iter().filter(|t| (t.whitelisted && !t.id.contains("bridge") && !off.contains(&t.id)) || post.iter().any(|p| t.id.ends_with(p))).map(|t| t.id.to_string()).collect();
    let have = e.deposits(&me);
    let need: Vec<String> = involved(&e, &call).into_iter().collect();
    let m: Value = serde_json::from_str(call.args["msg"].as_str().unwrap_or("")).unwrap_or(Value::Null);
    let instant = m["actions"].is_array();
    let trade = matches!(&call.method[..], "swap" | "swap_by_output" | "execute_actions" | "execute_actions_in_va");
    let asks = !instant && !(trade && call.deposit > 0);
    let missing = need.iter().find(|t| asks && !white.contains(*t) && !have.contains_key(*t));
    let mut f = e.clone();
    let a = full(&e);
    let (ok, r) = go(&mut e, &call);
    let b = full(&e);
    let run = OpRun { call: None, executed: r };
    let mut bad_echo = false;
    if instant && m["client_echo"].is_string() {
        let l = |x: &str| strings(&f.v(x, json!({})));
        bad_echo = !matches(&l("get_secure_sender_whitelist"), &me) && !(matches(&l("get_client_echo_sender_id_whitelist"), &me) && matches(&l("get_client_echo_token_id_whitelist"), &call.to));
    }
    // what the same trade does without the echo
    let mut outs = 0;
    if asks_echo {
        let mut plain = call.clone();
        let mut n = m.clone();
        n.as_object_mut().unwrap().remove("client_echo");
        plain.args["msg"] = json!(n.to_string());
        let (fine, r) = go(&mut f.clone(), &plain);
        if let Some(x) = r.iter().find(|x| x.receiver == EX && x.method == "ft_on_transfer") {
            outs = r.iter().filter(|y| x.spawned.contains(&y.id) && ["ft_transfer", "near_withdraw"].contains(&&y.method[..])).count();
        }
        let several = lender && outs > 1;
        if several {
            ensure!(!ok, "several-to-the-lender", "the lending market's echoed trade pays out {} tokens: {}", outs, show(&run));
            ensure!(unchanged(&a, &b, &call), "refused-with-effect", "{} by {} is refused, but {}; {}", op_name(&c.op), me, fdiff(&a, &b), show(&run));
            st.label("several tokens for the lending market");
            st.hit();
        } else if !bad_echo && !(lender && outs == 0) && m["swap_out_recipient"].is_null() {
            ensure!(ok == fine, "listed-echo", "{} by {}: the echo is listed, the trade {} with it and {} without it: {}", op_name(&c.op), me, ok, fine, show(&run));
        }
        if lender && ok {
            st.label("echo for the lending market");
        }
    }
    // a world in which everything is on the lists
    let all: Vec<&str> = TOKENS.iter().map(|t| t.id).collect();
    f.must(OWNER, "extend_whitelisted_tokens", json!({ "tokens": all }), 1);
    if !matches(&strings(&f.v("get_secure_sender_whitelist", json!({}))), &me) {
        f.must(OWNER, "extend_secure_sender_whitelist", json!({ "sender_ids": [me] }), 1);
    }
    let (would, _) = go(&mut f, &call);
    if missing.is_some() || bad_echo {
        let why = missing.map(|t| format!("{} is neither listed nor registered", t)).unwrap_or_else(|| "the echo is not listed".into());
        ensure!(!ok, if bad_echo { "unlisted-echo" } else { "unlisted-token" }, "{} by {} is executed although {}: {:?}", op_name(&c.op), me, why, call);
        ensure!(unchanged(&a, &b, &call), "refused-with-effect", "{} by {} is refused as {}, but {}; {}", op_name(&c.op), me, why, fdiff(&a, &b), show(&run));
        st.label(&format!("{} refused: {}{}", op_name(&c.op), if bad_echo { "echo" } else { "token" }, if would { "" } else { " (invalid anyway)" }));
        if would {
            st.hit();
        }
    } else {
        let (mut x, y) = (full(&f), b);
        x.near = y.near.clone();
        ensure!(ok == would && x == y, "refused-though-listed", "{} by {} needs nothing unlisted, but with everything listed it differs: {} and {}: {}; {}", op_name(&c.op), me, ok, would, fdiff(&y, &x), show(&run));
        let un = need.iter().any(|t| !white.contains(t));
        if ok {
            st.label(&format!("{} accepted{}", op_name(&c.op), if un && asks { ", registered by the user" } else if un { ", unlisted but confirmed or delivered outside" } else { "" }));
            if un || (instant && m["client_echo"].is_string()) {
                st.hit();
            }
        }
    }
    Ok(())
}

const USEROPS: &[(u32, G)] = &[
    (3, G::Deposit), (3, G::Withdraw), (1, G::Claim), (2, G::Reg), (2, G::Stor), (1, G::StorUnreg), (3, G::Add), (3, G::AddStable), (3, G::Remove), (3, G::RemoveBy),
    (4, G::Swap), (3, G::SwapOut), (4, G::Instant), (3, G::Zap), (2, G::MftPool), (2, G::MftTok), (3, G::MftReg), (3, G::Shadow), (2, G::DonateShare), (2, G::DonateToken), (2, G::OwnerFees),
];
const OPEN: &[(u32, G)] = &[(4, G::Withdraw), (3, G::Instant), (2, G::MftPool), (2, G::MftTok), (4, G::Shadow), (1, G::Claim), (1, G::FaultTok), (1, G::FaultHost), (1, G::FaultBot)];
const FROZENOPS: &[(u32, G)] = &[
    (3, G::Deposit), (4, G::Withdraw), (1, G::Claim), (4, G::Add), (4, G::AddStable), (4, G::Remove), (4, G::RemoveBy), (6, G::Swap), (4, G::SwapOut), (5, G::Instant), (4, G::Zap),
    (1, G::MftPool), (2, G::MftTok), (1, G::Shadow), (2, G::Liquidate), (1, G::DonateToken),
];
fn gcase(open: &'static [(u32, G)], ops: &'static [(u32, G)], n: usize) -> BoxedStrategy<Case> {
    (hist(STATE, 0..6), prop::collection::vec(mix(open), 0..4), prop::collection::vec(any::<u8>(), 0..3), prop::collection::vec(mix(ops), 1..=n), any::<u8>())
        .prop_map(|(h, open, steps, ops, k)| Case { h, open, steps, ops, k })
        .boxed()
}

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C16",
            "a generated state with transfers under way, paused by owner or guardian, up to 5 operations of every kind tried, then resumed and repeated, each beside a fork that was never paused; non-trivial: an operation that the fork accepts was tried, or an open transfer settled, while paused",
            500,
            30_000,
            || gcase(OPEN, USEROPS, 5),
            pause,
        ),
        def(
            "C17",
            "a generated state, one token frozen, up to 3 operations of every kind tried on forks with the token frozen, never frozen and frozen and released; non-trivial: an operation on the frozen token that would otherwise succeed was tried",
            600,
            30_000,
            || {
                gcase(OPEN, FROZENOPS, 3)
            },
            frozen,
        ),
        def(
            "C18",
            "a generated state with generated lists, registrations and echo permissions, one deposit, trade, zap or echoed transfer, beside a fork where everything is listed; non-trivial: refused though otherwise valid, or accepted with an unlisted token or an echo",
            1500,
            60_000,
            || {
                let ops = mix(&[(5, G::Deposit), (6, G::Swap), (3, G::SwapOut), (6, G::Instant), (5, G::Zap)]);
                let ops = (ops, any::<bool>(), any::<bool>()).prop_map(|(mut o, echo, attach)| {
                    match &mut o {
                        Op::Instant { echo: x, to, path, .. } => {
                            *x = echo;
                            path.bad = 0;
                            if echo {
                                *to = 0;
                                // often something is left of the way
                                if path.hops.len() > 1 && path.hops[0] & 1 == 1 {
                                    path.split |= 1 << (path.hops.len() - 1);
                                }
                            }
                        }
                        Op::Swap { attach: x, path, .. } | Op::SwapOut { attach: x, path, .. } => {
                            *x = attach;
                            path.bad = 0;
                        }
                        _ => {}
                    }
                    o
                });
                let unreg = prop::collection::vec((0u8..4, 0u8..8), 0..8);
                let reg = prop::collection::vec((0u8..7, 0u8..8), 0..3);
                (hist(STATE, 0..3), any::<u8>(), unreg, reg, any::<u8>(), prop::collection::vec((0u8..24, any::<bool>()), 0..3), any::<u8>(), (prop_oneof![3 => Just(0u8), 1 => 1u8..8], prop::bool::weighted(0.4), ops))
                    .prop_map(|(h, off, unreg, reg, postfix, echo, wild, (bare, lender, op))| Lists { h, off, unreg, reg, postfix, echo, wild, bare, lender, op })
                    .boxed()
            },
            listed,
        ),
    ]
}
