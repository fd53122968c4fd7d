//! C08: every withdrawal settles exactly once.
use super::*;
use crate::chain::{Executed, NEAR};
use crate::ensure;
use crate::vm::{Action, PromiseRes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

/// A transfer of tokens out of the exchange.
#[derive(Clone, Debug)]
pub struct Out {
    pub transfer: u64,
    pub callback: Option<u64>,
    pub token: String,
    pub amount: u128,
    /// account that is to have it in the end
    pub to: String,
    pub unwrap: bool,
    pub echo: bool,
}

/// the transfers a receipt of the exchange has started; `to` is who an unwrapping is for
pub fn outs_of(e: &Ex, x: &Executed, unwrap_for: &str) -> Vec<Out> {
    let mut v = vec![];
    for r in e.w.pending.iter().filter(|r| x.spawned.contains(&r.id)) {
        for a in &r.actions {
            if let Action::Call { method, args, .. } = a {
                if r.predecessor != EX || !["ft_transfer", "ft_transfer_call", "near_withdraw"].contains(&method.as_str()) {
                    continue;
                }
                let j: serde_json::Value = serde_json::from_slice(args).unwrap_or_default();
                let cb = e.w.pending.iter().find(|c| c.receiver == EX && c.inputs.iter().any(|i| r.outputs.contains(i))).map(|c| c.id);
                v.push(Out {
                    transfer: r.id,
                    callback: cb,
                    token: r.receiver.clone(),
                    amount: num(&j["amount"]),
                    to: j["receiver_id"].as_str().unwrap_or(unwrap_for).to_string(),
                    unwrap: method == "near_withdraw",
                    echo: method == "ft_transfer_call",
                });
            }
        }
    }
    v
}

/// where a failed transfer's amount has to go: (registered account, lost-and-found, owner)
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Home {
    Deposit,
    Lost,
    Owner,
}
pub const TOKEN_BYTES: u128 = 148;
pub fn home(e: &Ex, a: &Snap, who: &str, t: &str) -> Home {
    if let Some((dep, usage)) = a.stor.get(who) {
        let has = a.dep.get(who).map_or(false, |m| m.contains_key(t));
        if has || usage + TOKEN_BYTES * pow10(19) <= *dep {
            return Home::Deposit;
        }
    }
    let locked = e.w.wasm[EX].usage as u128 * pow10(19);
    if e.w.balance(EX) > locked + 100 * NEAR {
        Home::Lost
    } else {
        Home::Owner
    }
}

pub fn home_key(h: Home, who: &str, t: &str) -> (String, String, bool) {
    match h {
        Home::Deposit => (who.to_string(), t.to_string(), false),
        Home::Lost => (who.to_string(), t.to_string(), true),
        Home::Owner => (OWNER.to_string(), t.to_string(), false),
    }
}

pub fn lost_of(s: &Snap, a: &str, t: &str) -> u128 {
    s.lost.get(a).and_then(|m| m.get(t)).copied().unwrap_or(0)
}

/// every change of deposits and lost-and-found, (account, token, lost?) -> signed
pub fn changes(a: &Snap, b: &Snap) -> BTreeMap<(String, String, bool), i128> {
    let mut m = BTreeMap::new();
    for h in HOLDERS {
        for t in TOKENS {
            let d = b.d(h, t.id) as i128 - a.d(h, t.id) as i128;
            if d != 0 {
                m.insert((h.to_string(), t.id.to_string(), false), d);
            }
            let d = lost_of(b, h, t.id) as i128 - lost_of(a, h, t.id) as i128;
            if d != 0 {
                m.insert((h.to_string(), t.id.to_string(), true), d);
            }
        }
    }
    m
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    h: Hist,
    /// the exchange holds too little free NEAR for the lost-and-found
    poor: bool,
    /// the small account's storage credit, in tokens
    room: u8,
    /// tokens it holds at the start
    mask: u8,
}
#[derive(Default)]
pub struct W {
    open: Vec<Out>,
    settled: u32,
    failed: u32,
}
impl W {
    fn start_of(&mut self, e: &Ex, x: &Executed, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        let v = x.args_json();
        let t = v["token_id"].as_str().unwrap_or("").to_string();
        let (from, source_lost) = match x.method.as_str() {
            "withdraw" => (x.predecessor.clone(), false),
            "withdraw_owner_token" => (OWNER.to_string(), false),
            "claim_lostfound" => (x.predecessor.clone(), true),
            _ => return Ok(()),
        };
        let had = if source_lost { lost_of(a, &from, &t) } else { a.d(&from, &t) };
        let want = if source_lost || v["amount"] == "0" { had } else { num(&v["amount"]) };
        let outs = outs_of(e, x, &from);
        ensure!(outs.len() == 1, "not-one-transfer", "{} of {} {} started {} transfers", x.method, want, t, outs.len());
        let o = &outs[0];
        ensure!(o.token == t && o.amount == want && o.to == from && want > 0 && !o.echo, "wrong-transfer", "{} of {} {} by {} sends {} {} to {}", x.method, want, t, from, o.amount, o.token, o.to);
        ensure!(o.callback.is_some(), "no-callback", "{} of {} {} has no settlement", x.method, want, t);
        let skip = v["skip_unwrap_near"].as_bool().unwrap_or(true) || source_lost;
        ensure!(o.unwrap == (t == WRAP && !skip), "wrong-unwrap", "{} with skip_unwrap_near {}: unwrapping is {}", x.method, v["skip_unwrap_near"], o.unwrap);
        let ch = changes(a, b);
        let exp: BTreeMap<_, _> = [((from.clone(), t.clone(), source_lost), -(want as i128))].into_iter().collect();
        ensure!(ch == exp, "wrong-debit", "{} of {} {} by {} changed {:?}", x.method, want, t, from, ch);
        st.label(if o.unwrap { "unwrapping withdrawal" } else { "withdrawal" });
        Ok(())
    }
}
impl Watch for W {
    fn spec(&self) -> SnapSpec {
        SnapSpec { dep: true, lost: true, stor: true, ..SNAP_NONE }
    }
    fn step(&mut self, e: &Ex, op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        let x = match run.executed.first() {
            Some(x) => x,
            None => return Ok(()),
        };
        if x.receiver == EX && x.ok() {
            self.start_of(e, x, a, b, st)?;
            let for_whom = x.args_json()["swap_out_recipient"].as_str().map(|s| s.to_string()).unwrap_or_else(|| {
                let m = super::holdings::inner_msg(x);
                m["swap_out_recipient"].as_str().map(|s| s.to_string()).unwrap_or_else(|| x.args_json()["sender_id"].as_str().unwrap_or(&x.predecessor).to_string())
            });
            let new = outs_of(e, x, &for_whom);
            for o in &new {
                ensure!(o.callback.is_some() || o.echo, "no-callback", "{} sends {} {} without a settlement", x.method, o.amount, o.token);
            }
            self.open.extend(new);
        }
        if let Some(i) = self.open.iter().position(|o| o.callback == Some(x.id)) {
            let o = self.open.remove(i);
            let ch = changes(a, b);
            self.settled += 1;
            ensure!(x.ok(), "settlement-failed", "the settlement of {} {} for {} failed: {:?}", o.amount, o.token, o.to, x.result);
            match x.inputs.first() {
                Some(PromiseRes::Ok(b)) if o.echo && used(b, o.amount) < o.amount => {
                    let back = o.amount - used(b, o.amount);
                    let exp: BTreeMap<_, _> = [(home_key(home(e, a, &o.to, &o.token), &o.to, &o.token), back as i128)].into_iter().collect();
                    st.label("echo partly returned");
                    ensure!(ch == exp, "not-credited-back", "{} of {} {} echoed to {} came back; expected {:?}, but {:?}", back, o.amount, o.token, o.to, exp, ch);
                }
                Some(PromiseRes::Ok(_)) => {
                    ensure!(ch.is_empty(), "credited-although-sent", "{} {} arrived at {} and {:?} changed too", o.amount, o.token, o.to, ch);
                    let near: Vec<(String, u128)> = e
                        .w
                        .pending
                        .iter()
                        .filter(|r| x.spawned.contains(&r.id))
                        .flat_map(|r| r.actions.iter().map(move |c| (r.receiver.clone(), crate::chain::action_cost(c))))
                        .collect();
                    if o.unwrap {
                        ensure!(near == vec![(o.to.clone(), o.amount)], "near-not-paid", "unwrapped {} for {} but sends {:?}", o.amount, o.to, near);
                        st.label("unwrapped");
                    } else {
                        ensure!(near.is_empty(), "paid-twice", "{} {} arrived and {:?} is sent too", o.amount, o.token, near);
                    }
                }
                _ => {
                    self.failed += 1;
                    let hm = home(e, a, &o.to, &o.token);
                    let key = home_key(hm, &o.to, &o.token);
                    st.label(&format!("failed transfer credited: {:?}{}", hm, if a.stor.contains_key(&o.to) { "" } else { ", account gone" }));
                    let exp: BTreeMap<_, _> = [(key, o.amount as i128)].into_iter().collect();
                    ensure!(ch == exp, "not-credited-back", "{} {} for {} could not be sent; expected {:?} to be credited, but {:?}", o.amount, o.token, o.to, exp, ch);
                }
            }
        } else if let Some(o) = self.open.iter().find(|o| o.transfer == x.id) {
            ensure!(a.dep == b.dep && a.lost == b.lost, "changed-by-transfer", "{:?} changed the books", o);
        }
        let _ = op;
        Ok(())
    }
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, st: &mut Stats) -> Res {
        ensure!(self.open.iter().all(|o| o.echo), "unsettled", "never settled: {:?}", self.open);
        if self.settled > 0 {
            st.hit();
        }
        if self.failed > 0 {
            st.label("history with a failed withdrawal");
        }
        Ok(())
    }
}

/// turns account-level operations towards the small account
pub fn focus(op: &Op, to: u8) -> Op {
    let mut o = op.clone();
    match &mut o {
        Op::Withdraw { who, .. } | Op::StorUnreg { who } | Op::StorWithdraw { who, .. } | Op::RegTokens { who, .. } | Op::Claim { who, .. } => *who = to,
        _ => {}
    }
    o
}

const MIX: &[(u32, G)] = &[
    (3, G::Deposit), (22, G::Withdraw), (5, G::Claim), (4, G::Reg), (4, G::Stor), (5, G::StorUnreg), (3, G::Swap), (5, G::Instant), (2, G::MftTok),
    (1, G::DonateToken), (9, G::FaultTok), (22, G::Step), (2, G::Drain), (1, G::Advance), (3, G::OwnerFees), (1, G::White), (1, G::Pause),
];

pub fn defs() -> Vec<Def> {
    vec![def(
        "C08",
        "a generated history of up to 40 operations with withdrawals, leaving accounts and failing transfers, receipts in generated order; non-trivial: at least one outgoing transfer was settled",
        3000,
        200_000,
        || {
            (hist(MIX, 5..40), prop::collection::vec(any::<bool>(), 40), prop::bool::weighted(0.2), 0u8..5, any::<u8>(), prop::option::weighted(0.6, (0usize..20, any::<u8>(), 0u8..7)), prop::option::weighted(0.5, (prop::collection::vec(0u8..8, 1..5), any::<bool>())))
                .prop_map(|(mut h, f, poor, room, mask, exit, back)| {
                    h.setup.liq = h.setup.liq.iter().enumerate().map(|(i, l)| if i < 4 { *l } else { 0 }).collect();
                    h.ops = h.ops.iter().zip(f).map(|(o, f)| if f { focus(o, 4) } else { o.clone() }).collect();
                    // often the small account leaves while transfers to it are under way, some of which fail
                    if let Some((at, t, n)) = exit {
                        let at = at.min(h.ops.len());
                        let mut x = exit_ops(4, room as usize);
                        // (a mask: the tokens that will not be taken)
                        for k in (0..8u8).filter(|k| t >> k & 1 == 1) {
                            x.insert(0, Op::Fault(Fault::Blocked(k, 4, true)));
                        }
                        if n > 3 {
                            x.insert(0, Op::Drain);
                        }
                        // and comes back for what was kept for it
                        if let Some((l, also)) = back {
                            x.push(Op::Drain);
                            x.extend((0..8u8).map(|k| Op::Fault(Fault::Blocked(k, 4, false))));
                            x.push(Op::StorDeposit { who: 4, to: 4, only: false, milli: 300 });
                            for tok in l {
                                x.push(Op::Claim { who: 4, tok });
                                if also {
                                    x.push(Op::Drain);
                                }
                            }
                        }
                        h.ops.splice(at..at, x);
                    }
                    Case { h, poor, room, mask }
                })
                .boxed()
        },
        |c: &Case, st| {
            let mut w = W::default();
            drive_from(&c.h, &mut w, st, |e| {
                e.must(FRESH, "storage_deposit", json!({}), (102 + 148 * c.room as u128) * pow10(19));
                let mut n = 0;
                for (i, t) in TOKENS.iter().enumerate() {
                    if c.mask & (1 << i) != 0 && n < c.room && t.whitelisted {
                        n += 1;
                        e.w.tx_drain(FRESH, t.id, "ft_transfer_call", json!({"receiver_id": EX, "amount": units(t.id, 1000).to_string(), "msg": ""}), 1);
                    }
                }
                if c.poor {
                    let locked = e.w.wasm[EX].usage as u128 * pow10(19);
                    e.w.near.insert(EX.into(), locked + 99 * NEAR);
                }
            })
            .map(|_| ())
        },
    )]
}
