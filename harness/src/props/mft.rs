//! C11: multi-token transfers move exactly the amount and settle once.
use super::holdings::pool_of_token_id;
use super::*;
use crate::ensure;
use crate::vm::PromiseRes;
use serde_json::{json, Value};
use std::collections::BTreeMap;

struct Pend {
    token_id: String,
    from: String,
    to: String,
    amount: u128,
}
#[derive(Default)]
struct W {
    pend: BTreeMap<u64, Pend>,
    /// (share registrations of sender and receiver, running) before the operation
    regs: Option<(bool, bool, bool)>,
    transfers: u32,
    refunds: u32,
}
/// applies a move of `x` to a copy of the books
fn moved(a: &Snap, id: &str, from: &str, to: &str, x: u128) -> Snap {
    let mut b = a.clone();
    if x == 0 {
        return b;
    }
    match pool_of_token_id(id) {
        Some(p) => {
            b.shares.get_mut(from).unwrap()[p] -= x;
            b.shares.get_mut(to).unwrap()[p] += x;
        }
        None => {
            *b.dep.get_mut(from).unwrap().get_mut(id).unwrap() -= x;
            *b.dep.entry(to.into()).or_default().entry(id.into()).or_insert(0) += x;
        }
    }
    b
}
fn same(a: &Snap, b: &Snap) -> bool {
    a.dep == b.dep && a.shares == b.shares && a.locks == b.locks && a.lost == b.lost && a.pools == b.pools
}
fn free(a: &Snap, h: &str, id: &str) -> u128 {
    match pool_of_token_id(id) {
        Some(p) => {
            let (f, b) = a.lock(h, p as u64);
            a.sh(h, p).saturating_sub(f.max(b))
        }
        None => a.d(h, id),
    }
}
impl Watch for W {
    fn spec(&self) -> SnapSpec {
        SNAP_ALL
    }
    fn before(&mut self, e: &Ex, op: &Op, _s: &Snap) -> Res {
        self.regs = None;
        if let Op::Mft { .. } = op {
            if let Some(c) = e.call_of(op) {
                let id = c.args["token_id"].as_str().unwrap();
                let r = |a: &str| e.v("mft_has_registered", json!({"token_id": id, "account_id": a})) == json!(true);
                let run = e.v("metadata", json!({}))["state"] == json!("Running");
                self.regs = Some((r(&c.signer), r(c.args["receiver_id"].as_str().unwrap()), run));
            }
        }
        Ok(())
    }
    fn step(&mut self, e: &Ex, _op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        let x = match run.executed.first() {
            Some(x) if x.receiver == EX => x,
            _ => return Ok(()),
        };
        let v = x.args_json();
        if let Some(p) = self.pend.remove(&x.id) {
            // settlement
            let unused = match x.inputs.first() {
                Some(PromiseRes::Ok(r)) => serde_json::from_slice::<Value>(r).ok().and_then(|v| v.as_str().and_then(|s| s.parse::<u128>().ok())).unwrap_or(p.amount).min(p.amount),
                _ => p.amount,
            };
            // shares the receiver has locked cannot come back
            let held = free(a, &p.to, &p.token_id);
            let refund = unused.min(held);
            // the sender, unless it gave up what it needs to take them
            let takes = a.stor.contains_key(&p.from)
                && match pool_of_token_id(&p.token_id) {
                    Some(_) => e.v("mft_has_registered", json!({"token_id": p.token_id, "account_id": p.from})) == json!(true),
                    None => super::settle::home(e, a, &p.from, &p.token_id) == super::settle::Home::Deposit,
                };
            let dest = if takes { p.from.clone() } else { EX.to_string() };
            self.refunds += 1;
            st.label(&format!("settled: {}{}{}", if unused == 0 { "all kept" } else if unused == p.amount { "all returned" } else { "part returned" }, if held < unused { ", already spent or locked" } else { "" }, if !a.stor.contains_key(&p.from) { ", sender gone" } else if !takes { ", sender cannot take it" } else { "" }));
            ensure!(x.ok(), "refund-refused", "the return of {} {} from {} to {} failed: {:?}", refund, p.token_id, p.to, dest, x.result);
            let exp = if refund > 0 { moved(a, &p.token_id, &p.to, &dest, refund) } else { a.clone() };
            ensure!(same(&exp, b), "wrong-refund", "{} of {} {} unused, {} has {}, {} should get back {}: holder {} now, sender {} [{}]", unused, p.amount, p.token_id, p.to, held, dest, refund, free(b, &p.to, &p.token_id), free(b, &dest, &p.token_id), show(run));
            return Ok(());
        }
        if !["mft_transfer", "mft_transfer_call", "mft_transfer_all_call"].contains(&x.method.as_str()) {
            ensure!(x.method != "mft_resolve_transfer" || !x.ok(), "stray-settlement", "an unexpected settlement ran: {}", show(run));
            return Ok(());
        }
        let id = v["token_id"].as_str().unwrap().to_string();
        let (from, to) = (x.predecessor.clone(), v["receiver_id"].as_str().unwrap().to_string());
        let fr = free(a, &from, &id);
        let all = x.method == "mft_transfer_all_call";
        let amount = if all { fr } else { num(&v["amount"]) };
        let pool = pool_of_token_id(&id);
        if x.ok() {
            self.transfers += 1;
            st.label(&format!("{} of {} ok", x.method, if pool.is_some() { "shares" } else { "a deposit" }));
            ensure!(from != to, "to-self", "a transfer to oneself succeeded: {}", show(run));
            ensure!(amount <= fr, "more-than-free", "{} moved {} {} but only {} are free [{}]", from, amount, id, fr, show(run));
            if pool.is_none() {
                ensure!(!all, "all-of-deposit", "transfer-all of a deposit succeeded: {}", show(run));
                ensure!(a.stor.contains_key(&to) && a.stor.contains_key(&from), "unregistered", "{}", show(run));
            } else if let Some((_, r, _)) = self.regs {
                ensure!(r, "unregistered-receiver", "{}", show(run));
            }
            let exp = moved(a, &id, &from, &to, amount);
            ensure!(same(&exp, b), "wrong-move", "{} {} from {} to {}: sender {} -> {}, receiver {} -> {} [{}]", amount, id, from, to, free(a, &from, &id), free(b, &from, &id), free(a, &to, &id), free(b, &to, &id), show(run));
            if x.method != "mft_transfer" {
                // the receiver is told, and a settlement awaits its answer
                let notice = e.w.pending.iter().find(|r| x.spawned.contains(&r.id) && r.receiver == to);
                let told = notice.map_or(false, |r| {
                    r.actions.iter().any(|c| match c {
                        crate::vm::Action::Call { method, args, .. } => {
                            let j: Value = serde_json::from_slice(args).unwrap_or_default();
                            method == "mft_on_transfer" && j["amount"] == amount.to_string() && j["sender_id"] == from.as_str() && j["token_id"] == id.as_str() && j["msg"] == "m"
                        }
                        _ => false,
                    })
                });
                ensure!(told, "receiver-not-told", "{}", show(run));
                let rs = e.w.pending.iter().find(|r| r.receiver == EX && r.inputs.iter().any(|i| notice.unwrap().outputs.contains(i)));
                ensure!(rs.is_some(), "no-settlement", "{}", show(run));
                self.pend.insert(rs.unwrap().id, Pend { token_id: id, from, to, amount });
            }
        } else {
            ensure!(same(a, b), "failed-but-changed", "a refused transfer changed something: {}", show(run));
            if let Some((_, r, running)) = self.regs {
                let room = match pool {
                    Some(_) => r && amount > 0,
                    None => !all && amount > 0 && super::settle::home(e, a, &to, &id) == super::settle::Home::Deposit && a.stor.contains_key(&from) && a.stor[&from].1 <= a.stor[&from].0,
                };
                ensure!(!(running && from != to && amount <= fr && room), "refused-without-reason", "{} may move {} of {} free {} to {} but: {}", from, amount, fr, id, to, show(run));
            }
        }
        Ok(())
    }
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, st: &mut Stats) -> Res {
        ensure!(self.pend.is_empty(), "unsettled", "{} transfers were never settled", self.pend.len());
        if self.transfers >= 2 || self.refunds >= 1 {
            st.hit();
        }
        Ok(())
    }
}

const MIX: &[(u32, G)] = &[
    (2, G::Deposit), (3, G::Withdraw), (2, G::Reg), (2, G::Stor), (2, G::StorUnreg), (3, G::Add), (3, G::AddStable), (3, G::Remove), (2, G::Swap),
    (24, G::MftPool), (20, G::MftTok), (6, G::MftReg), (6, G::Shadow), (2, G::Liquidate), (2, G::DonateShare), (2, G::DonateToken),
    (9, G::FaultBot), (16, G::Step), (3, G::Drain), (1, G::Pause),
];

pub fn defs() -> Vec<Def> {
    vec![def(
        "C11",
        "a generated history of up to 40 operations, mostly multi-token transfers between users and a contract with a generated answer, receipts in generated order; non-trivial: two transfers or one settlement took place",
        1600,
        150_000,
        || hist(MIX, 5..40),
        |h: &Hist, st| {
            drive_from(h, &mut W::default(), st, |e| {
                for p in 0..POOLS {
                    for a in [BOT, USERS[0], USERS[1]] {
                        e.share_reg(p, a);
                    }
                    // everyone starts with some shares
                    let s = e.shares_of(USERS[3], p as u64);
                    if s > 8 {
                        for (i, a) in [BOT, USERS[0], USERS[1]].iter().enumerate() {
                            e.must(USERS[3], "mft_transfer", json!({"token_id": format!(":{}", p), "receiver_id": a, "amount": (s / (4 + i as u128)).to_string()}), 1);
                        }
                    }
                }
            })
            .map(|_| ())
        },
    )]
}
