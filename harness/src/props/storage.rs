//! C14: storage is paid for by its user and NEAR is never lost. C27: leaving never destroys value.
use super::settle::lost_of;
use super::*;
use crate::chain::{action_cost, BYTE_COST, NEAR};
use crate::ensure;
use crate::vm::{Action, PromiseRes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

const YOCTOS: i128 = 64;

#[derive(Default)]
struct Near {
    bal: u128,
    usage: u64,
    moved: u32,
    /// what was paid for a shadow record
    paid: BTreeMap<(String, u64), i128>,
    /// zaps about to run: share registrations they may need
    zaps: BTreeMap<u64, Vec<usize>>,
}
fn credit(s: &Snap) -> i128 {
    s.stor.values().map(|x| x.0 as i128).sum()
}
impl Watch for Near {
    fn spec(&self) -> SnapSpec {
        SnapSpec { dep: true, locks: true, stor: true, ..SNAP_NONE }
    }
    fn start(&mut self, e: &mut Ex, _s: &Snap) -> Res {
        self.bal = e.w.balance(EX);
        self.usage = e.w.wasm[EX].usage;
        Ok(())
    }
    fn before(&mut self, e: &Ex, op: &Op, _s: &Snap) -> Res {
        self.zaps.clear();
        if let Op::Step { .. } = op {
            for r in e.w.pending.iter().filter(|r| r.receiver == EX) {
                if let Some(Action::Call { method, args, .. }) = r.actions.first() {
                    if method != "ft_on_transfer" {
                        continue;
                    }
                    let v: serde_json::Value = serde_json::from_slice(args).unwrap_or_default();
                    let m: serde_json::Value = v["msg"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_default();
                    let ps: std::collections::BTreeSet<usize> = super::holdings::pools_of_actions(&m["add_liquidity_infos"]).into_iter().collect();
                    let n = ps.into_iter().filter(|p| *p < POOLS && e.v("mft_has_registered", json!({"token_id": format!(":{}", p), "account_id": v["sender_id"]})) == false).collect();
                    self.zaps.insert(r.id, n);
                }
            }
        }
        Ok(())
    }
    fn step(&mut self, e: &Ex, op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        let (bal, usage) = (e.w.balance(EX), e.w.wasm[EX].usage);
        let net = bal as i128 - self.bal as i128;
        let bytes = (usage as i128 - self.usage as i128) * BYTE_COST as i128;
        self.bal = bal;
        self.usage = usage;
        for (h, (_, used)) in &b.stor {
            let n = b.dep.get(h).map_or(0, |m| m.len() as u128);
            ensure!(*used == (102 + 148 * n) * BYTE_COST, "wrong-usage", "{} has {} tokens registered but a storage need of {}", h, n, used);
        }
        let x = match run.executed.first() {
            Some(x) => x,
            None => {
                ensure!(net == 0 && a.stor == b.stor, "changed-by-nothing", "NEAR changed by {} by {}", net, op_name(op));
                return Ok(());
            }
        };
        let d_credit = credit(b) - credit(a);
        // NEAR not owed to accounts as storage credit
        let free = net - d_credit;
        let small = |v: i128, want: i128| (v - want).abs() <= YOCTOS;
        let sends: Vec<(String, u128)> = if x.receiver == EX {
            e.w.pending
                .iter()
                .filter(|r| x.spawned.contains(&r.id))
                .flat_map(|r| r.actions.iter().filter(|c| matches!(c, Action::Transfer(_))).map(move |c| (r.receiver.clone(), action_cost(c))))
                .collect()
        } else {
            vec![]
        };
        let tell = || format!("{} changed NEAR by {}, credit by {}, storage by {}, sends {:?} [{}]", op_name(op), net, d_credit, bytes, sends, show(run));
        if x.receiver != EX {
            // peers: a returned yocto at most
            ensure!(small(net, 0) && d_credit == 0 && bytes == 0, "changed-by-peer", "{}", tell());
            return Ok(());
        }
        if x.method.is_empty() {
            // unwrapped NEAR on its way through
            ensure!(x.predecessor == WRAP && a.stor == b.stor, "odd-transfer", "{}", tell());
            return Ok(());
        }
        if !x.ok() {
            ensure!(net == 0 && d_credit == 0 && bytes == 0, "changed-by-failure", "{}", tell());
            return Ok(());
        }
        let v = x.args_json();
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let cred = |s: &Snap, h: &str| s.stor.get(h).map(|x| x.0 as i128).unwrap_or(0);
        // who may be paid NEAR, and whose credit may change
        let caller = x.predecessor.clone();
        let mut credit_of: Option<String> = None;
        let mut expect: Option<i128> = Some(0);
        let mut pay_to: Vec<String> = vec![];
        match x.method.as_str() {
            "storage_deposit" => {
                let to = if v["account_id"].is_string() { s("account_id") } else { caller.clone() };
                let had = a.stor.contains_key(&to);
                let only = v["registration_only"] == true;
                let min = 102 * BYTE_COST as i128;
                let want = if !only { x.deposit as i128 } else if had { 0 } else { min };
                ensure!(cred(b, &to) - cred(a, &to) == want && net == want, "wrong-storage-deposit", "expected {}: {}", want, tell());
                credit_of = Some(to);
                pay_to = vec![caller.clone()];
                self.moved += 1;
            }
            "storage_withdraw" => {
                let had = a.stor[&caller];
                let avail = had.0.saturating_sub(had.1);
                let want = if v["amount"].is_null() || num(&v["amount"]) == 0 { avail } else { num(&v["amount"]) };
                ensure!(want <= avail && want > 0, "withdrew-needed-storage", "{} of {} available: {}", want, avail, tell());
                ensure!(cred(a, &caller) - cred(b, &caller) == want as i128 && sends == vec![(caller.clone(), want)], "wrong-storage-withdrawal", "{}", tell());
                credit_of = Some(caller.clone());
                pay_to = vec![caller.clone()];
                self.moved += 1;
                st.label("storage withdrawn");
            }
            "storage_unregister" => {
                let had = cred(a, &caller);
                if a.stor.contains_key(&caller) {
                    ensure!(!b.stor.contains_key(&caller) && sends == vec![(caller.clone(), had as u128)], "wrong-final-refund", "credit {}: {}", had, tell());
                    st.label("account left");
                    self.moved += 1;
                }
                credit_of = Some(caller.clone());
                pay_to = vec![caller.clone()];
            }
            "add_liquidity" | "add_stable_liquidity" | "mft_register" | "shadow_action" => {
                expect = Some(bytes.max(0));
                pay_to = vec![caller.clone()];
                if bytes > 0 {
                    self.moved += 1;
                    st.label(&format!("storage paid by {}", x.method));
                }
                if x.method == "shadow_action" {
                    let p = v["pool_id"].as_u64().unwrap();
                    if a.lock(&caller, p) == (0, 0) && b.lock(&caller, p) != (0, 0) {
                        self.paid.insert((caller.clone(), p), free);
                    }
                }
            }
            "mft_unregister" => {
                expect = Some(bytes.min(0));
                pay_to = vec![caller.clone()];
                self.moved += 1;
                st.label("storage of a share registration returned");
            }
            "donation_share" => {
                expect = Some(bytes.min(0));
                pay_to = vec![caller.clone()];
                credit_of = Some(caller.clone());
                if a.stor.contains_key(&caller) {
                    ensure!(sends.is_empty(), "paid-beside-credit", "{}", tell());
                }
                if bytes < 0 {
                    st.label("storage freed by a donation");
                }
            }
            "callback_on_shadow" => {
                let (who, p) = (s("sender_id"), v["pool_id"].as_u64().unwrap());
                pay_to = vec![who.clone()];
                expect = Some(0);
                if a.lock(&who, p) != (0, 0) && b.lock(&who, p) == (0, 0) {
                    let paid = self.paid.remove(&(who.clone(), p)).unwrap_or(0);
                    expect = Some(-paid);
                    self.moved += 1;
                    st.label("storage of a lock returned");
                }
                credit_of = Some(who);
            }
            "on_burrow_liquidation" => {
                let (who, p) = (s("liquidation_account_id"), super::locks::shadow_pool(&v["shadow_id"]));
                if a.lock(&who, p) != (0, 0) && b.lock(&who, p) == (0, 0) {
                    let paid = self.paid.remove(&(who.clone(), p)).unwrap_or(0);
                    expect = Some(-paid);
                    self.moved += 1;
                    st.label("storage of a lock returned by a liquidation");
                }
                credit_of = Some(who);
            }
            "ft_on_transfer" => {
                // a zap pays for what it adds from its sender's credit
                let zap = super::holdings::inner_msg(x)["hot_zap_actions"].is_array();
                credit_of = Some(s("sender_id"));
                if zap {
                    // liquidity that is worth no share registers nobody
                    let fresh = self.zaps.remove(&x.id).unwrap_or_default().iter().filter(|p| e.v("mft_has_registered", json!({"token_id": format!(":{}", p), "account_id": v["sender_id"]})) == true).count();
                    // new share registrations are charged; new token registrations are covered by the credit
                    ensure!(d_credit <= 0 && -d_credit <= bytes.max(0) && -d_credit >= fresh as i128 * 60 * BYTE_COST as i128, "zap-storage", "{} new share registrations; {}", fresh, tell());
                    expect = None;
                    ensure!(small(net, 0), "zap-near", "{}", tell());
                    if fresh > 0 {
                        self.moved += 1;
                        st.label("storage paid by a zap");
                    }
                } else {
                    ensure!(d_credit == 0, "credit-changed", "{}", tell());
                }
            }
            "exchange_callback_post_withdraw_near" => {
                pay_to = vec![s("sender_id")];
                if matches!(x.inputs.first(), Some(PromiseRes::Ok(_))) {
                    expect = Some(-(num(&v["amount"]) as i128));
                }
            }
            _ => {}
        }
        if let Some(w) = expect {
            ensure!(small(free, w), "near-ledger", "expected {} beside the credit: {}", w, tell());
        }
        for (to, n) in &sends {
            ensure!(pay_to.contains(to), "paid-to-wrong-account", "{} to {}: {}", n, to, tell());
        }
        for h in HOLDERS {
            ensure!(cred(a, h) == cred(b, h) || credit_of.as_deref() == Some(h), "wrong-credit", "credit of {}: {}", h, tell());
        }
        // an account's own operation leaves its need covered
        let own = if x.method == "ft_on_transfer" { s("sender_id") } else { caller };
        if let (Some((d, u)), u0) = (b.stor.get(&own), a.stor.get(&own).map_or(0, |x| x.1)) {
            ensure!(u <= d || *u <= u0, "uncovered", "{} needs {} for storage but has {} after {}", own, u, d, tell());
            if d < &(2 * u) {
                st.label("own operation with little storage credit");
            }
        }
        ensure!(bal as i128 >= credit(b), "insolvent-in-near", "{}", tell());
        Ok(())
    }
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, st: &mut Stats) -> Res {
        if self.moved >= 2 {
            st.hit();
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    h: Hist,
    /// storage credit of the small account in bytes beyond the minimum
    room: u16,
}
fn to_small(h: &mut Hist, who: &[bool], small: u8) {
    for (o, f) in h.ops.iter_mut().zip(who) {
        if !*f {
            continue;
        }
        match o {
            Op::Deposit { who, .. } | Op::Swap { who, .. } | Op::Instant { who, .. } | Op::Zap { who, .. } | Op::Remove { who, .. } | Op::Add { who, .. } | Op::AddStable { who, .. } => *who = small,
            o => *o = super::settle::focus(o, small),
        }
    }
}
/// the small account: little storage credit, some shares, wallets full
pub fn small_account(e: &mut Ex, room: u16) {
    e.must(FRESH, "storage_deposit", json!({}), (102 + room as u128) * BYTE_COST);
    for p in [0usize, 3] {
        let s = e.shares_of("dave.near", p as u64);
        if s > 0 {
            e.share_reg(p, FRESH);
            e.must("dave.near", "mft_transfer", json!({"token_id": format!(":{}", p), "receiver_id": FRESH, "amount": (s / 4).to_string()}), 1);
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Leave {
    tried: u32,
    exits: u32,
    shreg: Option<(String, usize, bool)>,
}
impl Leave {
    pub fn new() -> Leave {
        Leave::default()
    }
    /// the removal a call asks for, if it is one
    fn check(&mut self, x: &Executed, a: &Snap, b: &Snap, running: bool, st: &mut Stats) -> Res {
        let v = x.args_json();
        let who = x.predecessor.clone();
        let held: u128 = a.dep.get(&who).map_or(0, |m| m.len() as u128);
        let locked = a.locks.contains_key(&who);
        match x.method.as_str() {
            "storage_unregister" => {
                self.tried += 1;
                if x.ok() && x.json() == true {
                    ensure!(a.stor.contains_key(&who) && held == 0 && !locked, "left-with-holdings", "{} left with {:?} and locks {:?}", who, a.dep.get(&who), a.locks.get(&who));
                    let mut c = a.clone();
                    c.stor.remove(&who);
                    ensure!(c == *b, "leaving-changed-more", "{} left; more than its storage credit changed", who);
                    st.label("left");
                } else if x.ok() {
                    ensure!(!a.stor.contains_key(&who) && a == b, "leaving-ignored", "{}", who);
                } else {
                    ensure!(held > 0 || locked || !running, "leaving-refused", "{} holds nothing but may not leave: {:?}", who, x.result);
                    st.label("leaving refused");
                }
            }
            "unregister_tokens" => {
                self.tried += 1;
                let ids: Vec<String> = serde_json::from_value(v["token_ids"].clone()).unwrap_or_default();
                let full: Vec<&String> = ids.iter().filter(|t| a.d(&who, t) > 0).collect();
                if x.ok() {
                    ensure!(full.is_empty(), "unregistered-with-balance", "{} unregistered {:?} holding {:?}", who, ids, a.dep.get(&who));
                    let mut c = a.clone();
                    if let Some(m) = c.dep.get_mut(&who) {
                        m.retain(|t, _| !ids.contains(t));
                        if m.is_empty() {
                            c.dep.remove(&who);
                        }
                    }
                    ensure!(c.dep == b.dep && c.lost == b.lost && c.shares == b.shares, "unregister-changed-more", "{} unregistered {:?}: {:?} -> {:?}", who, ids, a.dep.get(&who), b.dep.get(&who));
                    st.label("tokens unregistered");
                } else {
                    ensure!(!full.is_empty() || !running || !a.stor.contains_key(&who), "unregister-refused", "{} holds none of {:?} but may not unregister them: {:?}", who, ids, x.result);
                    st.label("unregistering tokens refused");
                }
            }
            "mft_unregister" => {
                self.tried += 1;
                let p = super::holdings::pool_of_token_id(v["token_id"].as_str().unwrap_or("")).unwrap_or(9999);
                let n = a.sh(&who, p);
                if x.ok() {
                    ensure!(n == 0, "unregistered-with-shares", "{} gave up its registration in pool {} with {} shares", who, p, n);
                    ensure!(a.shares == b.shares && a.dep == b.dep, "unregister-changed-more", "mft_unregister by {} changed holdings", who);
                    st.label("share registration given up");
                } else {
                    let reg = self.shreg.as_ref().map_or(true, |r| r.2);
                    ensure!(n > 0 || !running || !reg, "unregister-refused", "{} has no shares in pool {} but may not unregister: {:?}", who, p, x.result);
                    st.label("giving up a share registration refused");
                }
            }
            "donation_share" if x.ok() => {
                let p = v["pool_id"].as_u64().unwrap() as usize;
                let d = if v["amount"].is_null() { a.sh(&who, p) } else { num(&v["amount"]) };
                ensure!(v["unregister"] != true || b.sh(&who, p) == 0, "unregistered-with-shares", "{} donated {} of {}", who, d, a.sh(&who, p));
                ensure!(who == EX || a.sh(&who, p) - b.sh(&who, p) == d, "donated-more", "{} donated {} but lost {}", who, d, a.sh(&who, p) - b.sh(&who, p));
            }
            "donation_token" | "withdraw" if x.ok() => {
                let t = v["token_id"].as_str().unwrap_or("");
                let had = a.d(&who, t);
                let d = if v["amount"].is_null() || (x.method == "withdraw" && v["amount"] == "0") { had } else { num(&v["amount"]) };
                let gone = !b.dep.get(&who).map_or(false, |m| m.contains_key(t));
                if v["unregister"] == true {
                    ensure!(d == had || who == OWNER, "unregistered-with-balance", "{} {} {} of {} {} with its registration", who, x.method, d, had, t);
                    ensure!(gone || who == OWNER, "not-unregistered", "{} {} {} of {} {}", who, x.method, d, had, t);
                    st.label("registration given up with the last token");
                } else {
                    ensure!(!gone, "registration-lost", "{} {} {} of {} {}", who, x.method, d, had, t);
                }
            }
            _ => {
                // nothing else takes a registration or an account away
                for (h, m) in &a.dep {
                    for t in m.keys() {
                        ensure!(b.dep.get(h).map_or(false, |n| n.contains_key(t)), "registration-lost", "{}'s registration of {} vanished by {}", h, t, x.method);
                    }
                }
                for h in a.stor.keys() {
                    ensure!(b.stor.contains_key(h), "account-lost", "{}'s account vanished by {}", h, x.method);
                }
            }
        }
        Ok(())
    }
    /// everyone can take out everything and leave
    pub fn exit(&mut self, e: &Ex, who: &str, s: &Snap, st: &mut Stats) -> Res {
        let mut e = e.clone();
        for t in TOKENS {
            let m = e.w.model_mut(t.id).token_mut();
            m.paused = false;
            m.blocked.clear();
        }
        e.w.model_mut(FARM).shadow_mut().fail = false;
        e.w.model_mut(BURROW).shadow_mut().fail = false;
        if e.v("metadata", json!({}))["state"] != "Running" {
            e.must(OWNER, "change_state", json!({"state": "Running"}), 1);
        }
        let fr: Vec<String> = serde_json::from_value(e.v("get_frozenlist_tokens", json!({}))).unwrap_or_default();
        if !fr.is_empty() {
            e.must(OWNER, "remove_frozenlist_tokens", json!({ "tokens": fr }), 1);
        }
        if !s.stor.contains_key(who) {
            return Ok(());
        }
        let say = |m: &str, r: &Executed| viol(if m == "storage_unregister" { "cannot-leave" } else { "cannot-exit" }, format!("{} by {} on the way out failed: {:?} {}", m, who, r.result, String::from_utf8_lossy(&r.args)));
        // room for what comes out
        e.must(who, "storage_deposit", json!({}), NEAR);
        for (p, (f, b)) in s.locks.get(who).cloned().unwrap_or_default() {
            for (k, n) in [("FromFarming", f), ("FromBurrowland", b)] {
                if n == 0 {
                    continue;
                }
                let rec = e.w.model(if k == "FromFarming" { FARM } else { BURROW }).shadow().rec.get(&(who.to_string(), format!("shadow_ref_v1-{}", p))).copied().unwrap_or(0);
                if rec != n {
                    // the peer disagrees (a market that liquidated what it had not recorded)
                    return Ok(());
                }
                let r = e.w.tx_drain(who, EX, "shadow_action", json!({"action": k, "pool_id": p, "amount": null, "msg": ""}), NEAR / 100);
                if r.iter().any(|x| !x.ok()) {
                    return say("shadow_action", &r[0]);
                }
            }
        }
        let mut due: BTreeMap<String, u128> = s.dep.get(who).cloned().unwrap_or_default();
        for p in 0..s.pools.len() {
            let n = e.shares_of(who, p as u64);
            if n == 0 {
                continue;
            }
            let r = e.w.tx(who, EX, "remove_liquidity", json!({"pool_id": p, "shares": n.to_string(), "min_amounts": us(&vec![0; s.pools[p].tokens.len()])}), 1);
            if !r.ok() {
                // the last liquidity of a curve pool has to stay
                let last = s.pools[p].c_amounts.iter().any(|c| c - crate::ops::mul_div(*c, n, s.pools[p].supply) < pow10(s.pools[p].target() - 3));
                if !s.pools[p].simple() && last {
                    st.label("exit leaves the reserve floor behind");
                    continue;
                }
                return say("remove_liquidity", &r);
            }
            for (i, x) in nums(&r.json()).iter().enumerate() {
                *due.entry(s.pools[p].tokens[i].clone()).or_insert(0) += x;
            }
        }
        for (t, n) in s.lost.get(who).cloned().unwrap_or_default() {
            if n > 0 {
                let b0 = e.ft(&t, who);
                let r = e.w.tx_drain(who, EX, "claim_lostfound", json!({ "token_id": t }), 1);
                if r.iter().any(|x| !x.ok()) {
                    return say("claim_lostfound", &r[0]);
                }
                ensure!(e.ft(&t, who) - b0 == n, "claim-short", "{} claimed {} {} but got {}", who, n, t, e.ft(&t, who) - b0);
                st.label("exit with a lost-and-found claim");
            }
        }
        for (t, n) in &due {
            let b0 = e.ft(t, who);
            if *n == 0 {
                let r = e.w.tx(who, EX, "unregister_tokens", json!({ "token_ids": [t] }), 1);
                if !r.ok() {
                    return say("unregister_tokens", &r);
                }
                continue;
            }
            let r = e.w.tx_drain(who, EX, "withdraw", json!({"token_id": t, "amount": "0", "unregister": true, "skip_unwrap_near": true}), 1);
            if r.iter().any(|x| !x.ok()) {
                return say("withdraw", &r[0]);
            }
            ensure!(e.ft(t, who) - b0 == *n, "exit-short", "{} should get {} {} but got {}", who, n, t, e.ft(t, who) - b0);
        }
        let credit = num(&e.v("get_user_storage_state", json!({"account_id": who}))["deposit"]);
        let b0 = e.w.balance(who);
        let r = e.w.tx_drain(who, EX, "storage_unregister", json!({}), 1);
        if r.iter().any(|x| !x.ok()) {
            return say("storage_unregister", &r[0]);
        }
        ensure!(e.w.balance(who) + 1 == b0 + credit, "refund-short", "{} left with a credit of {} but got {}", who, credit, e.w.balance(who) as i128 - b0 as i128);
        ensure!(!e.registered(who), "still-there", "{}", who);
        self.exits += 1;
        Ok(())
    }
}
impl Watch for Leave {
    fn spec(&self) -> SnapSpec {
        SNAP_ALL
    }
    fn before(&mut self, e: &Ex, op: &Op, _s: &Snap) -> Res {
        self.shreg = None;
        if let Op::MftReg { who, pool, on: false, .. } = op {
            let (w, p) = (actor(*who).to_string(), *pool as usize % POOLS);
            let r = e.v("mft_has_registered", json!({"token_id": format!(":{}", p), "account_id": w}));
            self.shreg = Some((w, p, r == true));
        }
        Ok(())
    }
    fn step(&mut self, e: &Ex, _op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        if let Some(x) = run.executed.first() {
            if x.receiver == EX {
                let running = e.v("metadata", json!({}))["state"] == "Running";
                self.check(x, a, b, running, st)?;
            }
        }
        Ok(())
    }
    fn finish(&mut self, e: &mut Ex, s: &Snap, st: &mut Stats) -> Res {
        for u in ["bob.near", "carol.near", "dave.near", FRESH] {
            self.exit(e, u, s, st)?;
        }
        let _ = lost_of(s, FRESH, WRAP);
        st.add("complete exits", self.exits as u64);
        if self.tried > 0 || self.exits > 3 {
            st.hit();
        }
        Ok(())
    }
}

const NEAR_MIX: &[(u32, G)] = &[
    (5, G::Deposit), (5, G::Withdraw), (1, G::Claim), (5, G::Reg), (12, G::Stor), (4, G::StorUnreg), (4, G::Add), (4, G::AddStable), (4, G::Remove),
    (5, G::Swap), (5, G::Instant), (7, G::Zap), (3, G::MftPool), (3, G::MftTok), (8, G::MftReg), (12, G::Shadow), (6, G::Liquidate), (5, G::DonateShare), (1, G::DonateToken),
    (2, G::FaultTok), (3, G::FaultHost), (12, G::Step), (2, G::Drain), (1, G::Pause), (1, G::OwnerFees),
];
const LEAVE_MIX: &[(u32, G)] = &[
    (5, G::Deposit), (8, G::Withdraw), (1, G::Claim), (8, G::Reg), (3, G::Stor), (10, G::StorUnreg), (2, G::Add), (2, G::AddStable), (4, G::Remove),
    (3, G::Swap), (3, G::Instant), (1, G::Zap), (3, G::MftPool), (3, G::MftTok), (10, G::MftReg), (6, G::Shadow), (2, G::Liquidate), (4, G::DonateShare), (4, G::DonateToken),
    (4, G::FaultTok), (1, G::FaultHost), (10, G::Step), (2, G::Drain), (1, G::Pause), (1, G::Freeze), (1, G::White),
];

fn cases(w: &'static [(u32, G)], n: usize) -> BoxedStrategy<Case> {
    (super::locks::lock_hist(w, 5..n), prop::collection::vec(prop::bool::weighted(0.4), n), prop_oneof![0u16..300, 0u16..2000], prop::option::weighted(0.3, 0usize..20))
        .prop_map(|(mut h, f, room, exit)| {
            to_small(&mut h, &f, 4);
            if let Some(at) = exit {
                let at = at.min(h.ops.len());
                h.ops.splice(at..at, exit_ops(4, 2));
            }
            Case { h, room }
        })
        .boxed()
}
pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C14",
            "a generated history of up to 40 operations around storage, share registrations, locks and an account with little storage credit; non-trivial: NEAR was paid for storage or returned at least twice",
            1600,
            150_000,
            || cases(NEAR_MIX, 40),
            |c: &Case, st| {
                drive_from(&c.h, &mut Near::default(), st, |e| {
                    super::locks::spread(e);
                    small_account(e, c.room)
                })
                .map(|_| ())
            },
        ),
        def(
            "C27",
            "a generated history of up to 30 operations with attempts to remove registrations and accounts, after which four users exit on a fork; non-trivial: a removal was tried or all exits were complete",
            1000,
            100_000,
            || cases(LEAVE_MIX, 30),
            |c: &Case, st| {
                drive_from(&c.h, &mut Leave::default(), st, |e| {
                    super::locks::spread(e);
                    small_account(e, c.room)
                })
                .map(|_| ())
            },
        ),
    ]
}
