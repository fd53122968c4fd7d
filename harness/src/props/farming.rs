//! C40–C45: the farming contract.
use super::farm::*;
use super::*;
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

type Map = BTreeMap<String, u128>;
fn add(m: &mut Map, k: &str, x: u128) {
    *m.entry(k.into()).or_insert(0) += x;
}
fn get(m: &Map, k: &str) -> u128 {
    m.get(k).copied().unwrap_or(0)
}

// ---- C40: rewards are conserved

#[derive(Default)]
struct Ledger {
    funded: Map,
    per_farm: Map,
    /// paid out for good
    out: Map,
    claimed: bool,
    moved: u32,
    restored: u32,
}
impl Ledger {
    fn check(&self, f: &Fx, b: &FSnap, what: &str, st: &mut Stats) -> Res {
        let (fly, arriving) = f.flying();
        for (id, farm) in b.farms.iter().chain(b.old.iter()) {
            ensure!(farm.total == get(&self.per_farm, id), "farm-total", "farm {} reports {} as its total reward, {} was deposited, after {}", id, farm.total, get(&self.per_farm, id), what);
            ensure!(farm.claimed + farm.unclaimed <= farm.total, "farm-over", "farm {}: {} claimed and {} unclaimed of {}, after {}", id, farm.claimed, farm.unclaimed, farm.total, what);
            ensure!(farm.ben <= farm.claimed, "beneficiary", "farm {}: {} of {} claimed is the beneficiary's, after {}", id, farm.ben, farm.claimed, what);
            // what farmers could claim at this moment is there
            let owed: u128 = b.unc.iter().filter(|(k, _)| k.1 == *id).map(|x| *x.1).sum();
            ensure!(owed <= farm.unclaimed, "owed-over", "farm {}: farmers are told {}, {} is unclaimed, after {}", id, owed, farm.unclaimed, what);
        }
        for id in self.per_farm.keys() {
            ensure!(b.farms.contains_key(id) != b.old.contains_key(id), "farm-lost", "farm {} is in {} lists, after {}", id, if b.farms.contains_key(id) { 2 } else { 0 }, what);
        }
        for t in FTS {
            let all = || b.farms.values().chain(b.old.values()).filter(|x| x.token == t);
            let funded = get(&self.funded, t);
            let total: u128 = all().map(|x| x.total).sum();
            ensure!(total == funded && b.info.get(t).copied().unwrap_or(0) == funded, "token-total", "{}: {} deposited as rewards, farms say {}, the list {:?}, after {}", t, funded, total, b.info.get(t), what);
            let given: u128 = all().map(|x| x.claimed - x.ben).sum();
            let credit: u128 = PEOPLE.iter().map(|p| b.reward(p, t)).sum();
            let seeds = b.seeds.get(t).map_or(0, |s| s.amount);
            // a token that is staked as well: what is under way belongs to one or the other
            let under_way = get(&fly, t);
            let stake_fly = self.seed_fly(f, t);
            let rew_fly = under_way - stake_fly;
            ensure!(given == credit + rew_fly + get(&self.out, t), "claims-lost", "{}: {} claimed by farmers, {} credited, {} under way, {} withdrawn, after {}", t, given, credit, rew_fly, get(&self.out, t), what);
            let owed = total - given + credit + under_way + seeds;
            let bal = f.bal(t, FA);
            ensure!(bal >= owed, "insolvent", "{}: the contract has {}, {} is owed, after {}", t, bal, owed, what);
            if !arriving && f.w.pending.is_empty() {
                st.label("quiet states");
            }
        }
        Ok(())
    }
    /// what of `t` under way is stake
    fn seed_fly(&self, f: &Fx, t: &str) -> u128 {
        if f.w.pending.is_empty() {
            return 0;
        }
        let mut only = f.clone();
        let mut keep = vec![];
        for r in &f.w.pending {
            let cb = f.w.pending.iter().find(|c| c.inputs.iter().any(|i| r.outputs.contains(i))).unwrap_or(r);
            let m = cb.actions.iter().find_map(|a| match a {
                crate::vm::Action::Call { method, .. } => Some(method.clone()),
                _ => None,
            });
            if m.as_deref() == Some("callback_post_withdraw_ft_seed") {
                keep.push(r.clone());
            }
        }
        only.w.pending = keep;
        get(&only.flying().0, t)
    }
}
impl FWatch for Ledger {
    fn step(&mut self, f: &Fx, x: Option<&Executed>, a: &FSnap, b: &FSnap, st: &mut Stats) -> Res {
        let x = match x {
            Some(x) => x,
            None => return self.check(f, b, "time passed", st),
        };
        let what = xshow(x);
        if let Some((farm, tok, n)) = funding(x) {
            add(&mut self.funded, &tok, n);
            add(&mut self.per_farm, &farm, n);
            ensure!(b.farms.get(&farm).map_or(false, |y| y.token == tok), "wrong-token", "{} was taken as a reward for {}: {}", tok, farm, what);
        }
        if x.receiver == FA && x.method == "callback_post_withdraw_reward" && x.ok() {
            let v = x.args_json();
            if failed_input(x) {
                self.restored += 1;
            } else {
                // its transfer was counted when it was executed
            }
            let _ = v;
        }
        if x.predecessor == FA && x.method == "ft_transfer" && x.ok() {
            let v = x.args_json();
            let cb = f.w.pending.iter().any(|r| r.receiver == FA && r.root == x.root && r.actions.iter().any(|a| matches!(a, crate::vm::Action::Call { method, .. } if method == "callback_post_withdraw_reward")));
            if cb {
                add(&mut self.out, &x.receiver, num_j(&v["amount"]));
                self.moved += 1;
            }
        }
        for t in FTS {
            for p in PEOPLE {
                if b.reward(p, t) > a.reward(p, t) {
                    self.claimed = true;
                }
            }
        }
        self.check(f, b, &what, st)
    }
    fn finish(&mut self, f: &Fx, b: &FSnap, st: &mut Stats) -> Res {
        self.check(f, b, "everything", st)?;
        if self.claimed && self.moved > 0 {
            st.hit();
        }
        if self.restored > 0 {
            st.label("withdrawals restored");
        }
        Ok(())
    }
}

// ---- C41: proportional

#[derive(Default)]
struct Fair {
    b: Book,
    credited: u32,
    shared: bool,
    seen: u128,
}
impl Fair {
    fn compare(&mut self, b: &FSnap, what: &str) -> Res {
        for (id, f) in &self.b.farms {
            for p in PEOPLE {
                let unc = if f.cleared { 0 } else { b.unc.get(&(p.to_string(), id.clone())).copied().unwrap_or(0) };
                if f.cleared {
                    continue;
                }
                let got = f.paid.get(p).copied().unwrap_or(0) + unc;
                let (lo, hi) = f.share(p);
                ensure!(num_bigint::BigUint::from(got) <= hi, "too-much", "{} has {} of farm {} where its share is at most {}, after {}", p, got, id, hi, what);
                ensure!(num_bigint::BigUint::from(got) >= lo, "too-little", "{} has {} of farm {} where its share is at least {}, after {}", p, got, id, lo, what);
                if got > 0 && f.total_of() > got {
                    self.shared = true;
                }
            }
        }
        Ok(())
    }
}
impl BFarm {
    fn total_of(&self) -> u128 {
        self.released - self.nobody
    }
}
impl FWatch for Fair {
    fn step(&mut self, f: &Fx, x: Option<&Executed>, a: &FSnap, b: &FSnap, st: &mut Stats) -> Res {
        let now = f.sec();
        self.b.advance(now);
        let x = match x {
            Some(x) if x.receiver == FA => x,
            Some(_) => return Ok(()),
            None => return self.compare(b, "time passed"),
        };
        let what = xshow(x);
        if !x.ok() {
            return Ok(());
        }
        // what a claim pays is what was reported, to the one who claims
        let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
        if let Some((who, farms)) = self.b.claims(x) {
            for id in farms {
                let unc = a.unc.get(&(who.clone(), id.clone())).copied().unwrap_or(0);
                let e = self.b.farms.get_mut(&id).unwrap();
                *e.paid.entry(who.clone()).or_insert(0) += unc;
                if unc > 0 {
                    *e.claims.entry(who.clone()).or_insert(0) += 1;
                    *want.entry((who.clone(), e.token.clone())).or_insert(0) += unc as i128;
                    self.credited += 1;
                }
            }
            self.b.touch();
        }
        let v = x.args_json();
        if x.method == "callback_post_withdraw_reward" && failed_input(x) {
            *want.entry((v["sender_id"].as_str().unwrap().into(), v["token_id"].as_str().unwrap().into())).or_insert(0) += num_j(&v["amount"]) as i128;
        }
        for p in PEOPLE {
            for t in FTS {
                let mut d = b.reward(p, t) as i128 - a.reward(p, t) as i128;
                if x.method == "withdraw_reward" && x.predecessor == p && v["token_id"] == t {
                    d = d.max(0);
                }
                let w = want.get(&(p.to_string(), t.to_string())).copied().unwrap_or(0);
                ensure!(d == w, "paid-not-reported", "{} gets {} {} where {} was reported unclaimed, with {}", p, d, t, w, what);
            }
        }
        if let Some((who, seed, d)) = stake_change(x) {
            let to = (self.b.st(&seed, &who) as i128 + d).max(0) as u128;
            self.b.restake(&seed, &who, to);
        }
        self.b.created(x);
        if let Some((farm, _, n)) = funding(x) {
            self.b.funded(&farm, n, now);
            self.b.advance(now);
        }
        if x.method == "force_clean_farm" && x.json() == json!(true) {
            if let Some(e) = self.b.farms.get_mut(v["farm_id"].as_str().unwrap()) {
                e.cleared = true;
            }
        }
        let _ = st;
        self.seen += 1;
        self.compare(b, &what)
    }
    fn finish(&mut self, _f: &Fx, b: &FSnap, st: &mut Stats) -> Res {
        self.compare(b, "everything")?;
        if self.credited >= 2 && self.shared {
            st.hit();
        }
        Ok(())
    }
}

// ---- C42: stakes

#[derive(Default)]
struct Stakes {
    /// transfers of withdrawn stakes by their root
    open: BTreeMap<u64, (String, String, u128)>,
    done: u32,
    back: u32,
}
impl FWatch for Stakes {
    fn unclaimed(&self) -> bool {
        false
    }
    fn step(&mut self, f: &Fx, x: Option<&Executed>, a: &FSnap, b: &FSnap, st: &mut Stats) -> Res {
        let what = x.map(xshow).unwrap_or("time passed".into());
        let (fly, _) = f.flying();
        for s in SEEDS {
            let sum: u128 = PEOPLE.iter().map(|p| b.stake(p, s)).sum();
            let total = b.seeds.get(s).map_or(0, |x| x.amount);
            ensure!(sum == total, "sum", "{}: farmers have {}, the total is {}, after {}", s, sum, total, what);
            let rewards: u128 = if s.contains('@') { 0 } else {
                b.farms.values().chain(b.old.values()).filter(|x| x.token == s).map(|x| x.total - (x.claimed - x.ben)).sum::<u128>() + PEOPLE.iter().map(|p| b.reward(p, s)).sum::<u128>()
            };
            let owed = total + get(&fly, s) + rewards;
            ensure!(f.bal(s, FA) >= owed, "uncovered", "{}: the contract has {}, {} is staked or owed, after {}", s, f.bal(s, FA), owed, what);
        }
        let x = match x {
            Some(x) => x,
            None => {
                ensure!(a.stk == b.stk, "moved-by-itself", "stakes changed: {:?} -> {:?}", a.stk, b.stk);
                return Ok(());
            }
        };
        // exactly the stake named moves, and only that
        let ch = stake_change(x);
        for p in PEOPLE {
            for s in SEEDS {
                let d = b.stake(p, s) as i128 - a.stake(p, s) as i128;
                let w = match &ch {
                    Some((who, seed, n)) if who == p && seed == s => *n,
                    _ => 0,
                };
                ensure!(d == w, "wrong-change", "stake of {} in {} changes by {} instead of {}, with {}", p, s, d, w, what);
            }
        }
        if let Some((who, seed, _)) = &ch {
            ensure!(PEOPLE.contains(&who.as_str()) && SEEDS.contains(&seed.as_str()), "from-nowhere", "a stake of {} in {} by {}", who, seed, what);
        }
        // how a withdrawal is under way
        if x.receiver == FA && x.method == "withdraw_seed" && x.ok() {
            let v = x.args_json();
            let (seed, n) = (v["seed_id"].as_str().unwrap(), num_j(&v["amount"]));
            let mut sent = vec![];
            for r in f.w.pending.iter().filter(|r| x.spawned.contains(&r.id) && r.receiver != FA) {
                for c in &r.actions {
                    match c {
                        crate::vm::Action::Call { method, args, deposit, .. } => {
                            let j: serde_json::Value = serde_json::from_slice(args).unwrap_or_default();
                            let id = match method.as_str() {
                                "ft_transfer" => r.receiver.clone(),
                                "mft_transfer" => format!("{}@{}", r.receiver, j["token_id"].as_str().unwrap_or("").trim_start_matches(':')),
                                _ => format!("{}.{}", r.receiver, method),
                            };
                            sent.push((id, j["receiver_id"].as_str().unwrap_or("").to_string(), num_j(&j["amount"]), *deposit));
                        }
                        _ => sent.push(("something else".into(), String::new(), 0, 0)),
                    }
                }
            }
            ensure!(sent == vec![(seed.to_string(), x.predecessor.clone(), n, 1)], "wrong-transfer", "{} sends {:?}", what, sent);
            let cb = f.w.pending.iter().filter(|r| x.spawned.contains(&r.id) && r.receiver == FA).count();
            ensure!(cb == 1, "no-callback", "{} has {} settlements", what, cb);
            self.open.insert(x.root, (x.predecessor.clone(), seed.to_string(), n));
        }
        if x.receiver == FA && x.method.starts_with("callback_post_withdraw_") && x.method.ends_with("seed") && x.predecessor == FA {
            let o = match self.open.remove(&x.root) {
                Some(o) => o,
                None => return viol("settled-twice", format!("{} settles nothing that was open", what)),
            };
            ensure!(x.ok(), "settlement-fails", "the settlement of {:?} fails: {}", o, what);
            if failed_input(x) {
                self.back += 1;
                ensure!(b.stake(&o.0, &o.1) == a.stake(&o.0, &o.1) + o.2, "not-restored", "{:?} is not restored by {}", o, what);
                st.label("stakes restored");
            } else {
                self.done += 1;
            }
        }
        Ok(())
    }
    fn finish(&mut self, f: &Fx, b: &FSnap, st: &mut Stats) -> Res {
        ensure!(self.open.is_empty(), "never-settled", "{:?} never settled", self.open);
        let _ = (f, b);
        if self.done + self.back > 0 {
            st.hit();
        }
        Ok(())
    }
}

// ---- C43: always out

#[derive(Default)]
pub struct Way {
    pub at: Vec<u16>,
    pub n: u16,
    pub held: u32,
    pub salt: u8,
}
impl Way {
    pub fn out(&mut self, f: &Fx, who: &str, drain: bool, st: &mut Stats) -> Res {
        let mut f = f.clone();
        f.heal();
        if f.v("get_metadata", json!({}))["state"] != "Running" {
            f.w.tx(OWNER, FA, "resume_contract", json!({}), 1);
        }
        if drain {
            f.w.drain();
        }
        let registered = |f: &Fx| !f.v("get_user_storage_state", json!({ "account_id": who })).is_null();
        let flying = !f.w.pending.is_empty();
        if !registered(&f) {
            return Ok(());
        }
        let r = f.w.tx(who, FA, "storage_deposit", json!({"account_id": who, "registration_only": false}), crate::chain::NEAR);
        ensure!(r.ok(), "no-storage", "{} cannot add to its storage deposit: {}", who, xshow(&r));
        let s = f.snap(true);
        // claims work wherever there is a farm
        for (k, seed) in s.seeds.keys().enumerate() {
            if (self.salt as usize + k) % 3 == 0 {
                let r = f.w.tx(who, FA, "claim_reward_by_seed", json!({ "seed_id": seed }), 0);
                ensure!(r.ok(), "claim-fails", "{}", xshow(&r));
            }
        }
        for (k, id) in s.farms.keys().enumerate() {
            if (self.salt as usize + k) % 2 == 0 {
                let r = f.w.tx(who, FA, "claim_reward_by_farm", json!({ "farm_id": id }), 0);
                ensure!(r.ok(), "claim-fails", "{}", xshow(&r));
            }
        }
        // staking (more) works
        if self.salt & 16 == 16 {
            for (seed, i) in &s.seeds {
                let n = i.min.max(1);
                let r = match parse_mft(seed) {
                    Some(t) => f.w.tx(who, AMM, "mft_transfer_call", json!({"token_id": t, "receiver_id": FA, "amount": n.to_string(), "msg": ""}), 1),
                    None => f.w.tx(who, seed, "ft_transfer_call", json!({"receiver_id": FA, "amount": n.to_string(), "msg": ""}), 1),
                };
                if r.ok() {
                    let x = f.w.step_id(r.spawned[0]);
                    ensure!(x.ok(), "stake-fails", "{}", xshow(&x));
                }
            }
        }
        let s = f.snap(false);
        let seeds: Vec<(String, u128)> = s.stk[who].iter().map(|x| (x.0.clone(), *x.1)).collect();
        for (seed, n) in seeds {
            self.held += 1;
            // what is held cannot be left behind
            let r = f.w.tx(who, FA, "storage_unregister", json!({}), 1);
            ensure!(!r.ok(), "left-too-early", "{} is removed with {} of {} staked", who, n, seed);
            let part = if n > 1 { [n / 2, 1, n - 1][self.salt as usize % 3] } else { 0 };
            for x in [part, n - part] {
                if x == 0 {
                    continue;
                }
                let b0 = f.bal(&seed, who);
                let r = f.w.tx(who, FA, "withdraw_seed", json!({"seed_id": seed, "amount": x.to_string()}), 1);
                ensure!(r.ok(), "stake-stuck", "{} of {} staked by {}: {}", x, n, who, xshow(&r));
                let t = r.spawned[0];
                let y = f.w.step_id(t);
                ensure!(y.ok() && f.bal(&seed, who) == b0 + x, "stake-not-sent", "{} of {}: {}", x, seed, xshow(&y));
            }
            st.label("stakes withdrawn on the way out");
        }
        // calls under way may still bring something back, or not: let them end
        if flying {
            f.w.drain();
            let s = f.snap(false);
            for (seed, n) in s.stk.get(who).cloned().unwrap_or_default() {
                let b0 = f.bal(&seed, who);
                let r = f.w.tx_drain(who, FA, "withdraw_seed", json!({"seed_id": seed, "amount": n.to_string()}), 1);
                ensure!(r[0].ok() && f.bal(&seed, who) == b0 + n, "stake-stuck", "restored {} of {}: {}", n, seed, xshow(&r[0]));
            }
        } else {
            f.w.drain();
        }
        let s = f.snap(false);
        for (tok, n) in s.rew[who].iter() {
            self.held += 1;
            if *n > 0 {
                let r = f.w.tx(who, FA, "storage_unregister", json!({}), 1);
                ensure!(!r.ok(), "left-too-early", "{} is removed with {} of {} to withdraw", who, n, tok);
            }
            let b0 = f.bal(tok, who);
            // all of it in one way or another
            let part = if *n > 1 && self.salt & 8 == 8 { n / 2 } else { 0 };
            if part > 0 {
                let r = f.w.tx_drain(who, FA, "withdraw_reward", json!({"token_id": tok, "amount": part.to_string()}), 1);
                ensure!(r[0].ok() && f.bal(tok, who) == b0 + part, "reward-stuck", "{} of {} {}: {}", part, n, tok, xshow(&r[0]));
            }
            let rest = n - part;
            let a = if self.salt & 4 == 4 && rest > 0 { json!(rest.to_string()) } else { json!(null) };
            let r = f.w.tx_drain(who, FA, "withdraw_reward", json!({"token_id": tok, "amount": a}), 1);
            ensure!(r[0].ok() && f.bal(tok, who) == b0 + n, "reward-stuck", "{} of {} {}: {} -- {}", rest, n, tok, xshow(&r[0]), r.get(1).map(xshow).unwrap_or_default());
            st.label("rewards withdrawn on the way out");
        }
        let s = f.snap(false);
        let dep = s.stor[who].0;
        let n0 = f.w.balance(who);
        let r = f.w.tx_drain(who, FA, "storage_unregister", json!({}), 1);
        ensure!(r[0].ok() && r[0].json() == json!(true), "cannot-leave", "{} holds nothing ({:?} {:?}) and cannot leave: {}", who, s.stk[who], s.rew[who], xshow(&r[0]));
        ensure!(f.w.balance(who) == n0 + dep - 1 && !registered(&f), "deposit-lost", "{} gets {} of {} back", who, f.w.balance(who) as i128 + 1 - n0 as i128, dep);
        // and can begin again
        if self.salt & 32 == 32 {
            let r = f.w.tx(who, FA, "storage_deposit", json!({}), crate::chain::NEAR);
            ensure!(r.ok(), "cannot-return", "{}", xshow(&r));
            let s = f.snap(false);
            ensure!(s.rew[who].is_empty() && s.stk[who].is_empty(), "returned-with", "{} returns to {:?} {:?}", who, s.rew[who], s.stk[who]);
            for (seed, i) in &s.seeds {
                let n = i.min.max(5);
                let args = |t: Option<String>| match t {
                    Some(t) => (AMM.to_string(), "mft_transfer_call", json!({"token_id": t, "receiver_id": FA, "amount": n.to_string(), "msg": ""})),
                    None => (seed.clone(), "ft_transfer_call", json!({"receiver_id": FA, "amount": n.to_string(), "msg": ""})),
                };
                let (to, m, a) = args(parse_mft(seed));
                if f.bal(seed, who) < n {
                    continue;
                }
                let r = f.w.tx_drain(who, &to, m, a, 1);
                let on = r.iter().find(|x| x.receiver == FA).unwrap();
                ensure!(on.ok(), "stake-fails", "{} having left and come back: {}", who, xshow(on));
                f.w.advance(100);
                let b0 = f.bal(seed, who);
                let r = f.w.tx_drain(who, FA, "withdraw_seed", json!({"seed_id": seed, "amount": n.to_string()}), 1);
                ensure!(r[0].ok() && f.bal(seed, who) == b0 + n, "stake-stuck", "{} having left and come back: {}", who, xshow(&r[0]));
            }
            st.label("left and came back");
        }
        Ok(())
    }
}
impl FWatch for Way {
    fn unclaimed(&self) -> bool {
        false
    }
    fn step(&mut self, f: &Fx, x: Option<&Executed>, a: &FSnap, b: &FSnap, st: &mut Stats) -> Res {
        // operations within the rules do not fail for reasons of bookkeeping
        if let Some(x) = x.filter(|x| x.receiver == FA && !x.ok() && !x.injected && !a.paused) {
            let v = x.args_json();
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            let ample = |w: &str| a.ample(w);
            let what = xshow(x);
            match x.method.as_str() {
                "claim_reward_by_farm" if ample(&x.predecessor) && a.farms.contains_key(&s("farm_id")) => return viol("claim-fails", what),
                "claim_reward_by_seed" if ample(&x.predecessor) && a.seeds.contains_key(&s("seed_id")) => return viol("claim-fails", what),
                "withdraw_seed" if x.deposit == 1 => {
                    let have = a.stake(&x.predecessor, &s("seed_id"));
                    let n = num_j(&v["amount"]);
                    ensure!(n == 0 || n > have, "stake-stuck", "{}", what);
                }
                "withdraw_reward" if x.deposit == 1 => {
                    let have = a.reward(&x.predecessor, &s("token_id"));
                    let n = if v["amount"].is_null() { 0 } else { num_j(&v["amount"]) };
                    ensure!(have == 0 || n > have, "reward-stuck", "{}", what);
                }
                "ft_on_transfer" if s("msg").is_empty() && ample(&s("sender_id")) && x.predecessor != "mallory.near" => {
                    if let Some(i) = a.seeds.get(&x.predecessor) {
                        ensure!(num_j(&v["amount"]) < i.min, "stake-fails", "{}", what);
                    }
                }
                "mft_on_transfer" if s("msg").is_empty() && ample(&s("sender_id")) && x.predecessor != "mallory.near" => {
                    if let Some(i) = a.seeds.get(&mft_seed(x)) {
                        ensure!(num_j(&v["amount"]) < i.min, "stake-fails", "{}", what);
                    }
                }
                "storage_unregister" if x.deposit == 1 && a.stor.contains_key(&x.predecessor) => {
                    let empty = a.stk[&x.predecessor].is_empty() && a.rew[&x.predecessor].values().all(|x| *x == 0);
                    ensure!(!empty, "cannot-leave", "{}: holding {:?} {:?}", what, a.stk[&x.predecessor], a.rew[&x.predecessor]);
                }
                m if m.starts_with("callback_post") && x.predecessor == FA => return viol("settlement-fails", what),
                _ => {}
            }
        }
        if let Some(x) = x.filter(|x| x.receiver == FA && x.method == "storage_unregister" && x.ok() && x.json() == json!(true)) {
            let p = &x.predecessor;
            let holds = a.stk[p].values().chain(a.rew[p].values()).any(|x| *x > 0);
            ensure!(!holds, "left-too-early", "{} holds {:?} {:?}", p, a.stk[p], a.rew[p]);
        }
        let _ = b;
        self.n += 1;
        if self.at.contains(&self.n) {
            let who = USERS[(self.n as usize + self.salt as usize) % 4];
            self.out(f, who, self.salt & 64 == 64, st)?;
        }
        Ok(())
    }
    fn finish(&mut self, f: &Fx, _b: &FSnap, st: &mut Stats) -> Res {
        for who in USERS {
            self.out(f, who, true, st)?;
        }
        if self.held > 0 {
            st.hit();
        }
        Ok(())
    }
}

// ---- C45: the life of a farm

#[derive(Default)]
struct Life {
    b: Book,
    paid_ben: Map,
    ended: bool,
    cleaned: u32,
    next: BTreeMap<String, u64>,
    min: Map,
}
impl Life {
    fn compare(&self, f: &Fx, b: &FSnap, what: &str) -> Res {
        let now = f.sec();
        let (live, old): (Vec<_>, Vec<_>) = self.b.farms.iter().partition(|x| !x.1.cleared);
        ensure!(b.farms.len() == live.len() && b.old.len() == old.len(), "farm-lists", "{} farms and {} cleared ones instead of {} and {}, after {}", b.farms.len(), b.old.len(), live.len(), old.len(), what);
        for (id, m) in &self.b.farms {
            let r = match if m.cleared { b.old.get(id) } else { b.farms.get(id) } {
                Some(r) => r,
                None => return viol("farm-lists", format!("farm {} is not where it belongs, after {}", id, what)),
            };
            ensure!((&r.seed, &r.token, r.per, r.interval, r.start) == (&m.seed, &m.token, m.per, m.interval, m.start), "terms-changed", "farm {}: {:?}, created with seed {} token {} per {} interval {} start {}, after {}", id, r, m.seed, m.token, m.per, m.interval, m.start, what);
            let status = m.status(now);
            ensure!(r.status == status, "status", "farm {} is {} instead of {}: {:?}, after {}", id, r.status, status, r, what);
            ensure!(r.total == m.funded, "total", "farm {} has {} in all instead of {}, after {}", id, r.total, m.funded, what);
            let out = if m.cleared { m.released } else { m.out(now) };
            ensure!(r.claimed + r.unclaimed == out, "released", "farm {} has released {} + {} instead of {} after {} rounds of {} ({} in all), after {}", id, r.claimed, r.unclaimed, out, m.rounds(now), m.per, m.funded, what);
            if !m.cleared && m.per > 0 {
                let most = m.funded / m.per + (m.funded % m.per > 0) as u128;
                let cur = (m.rounds(now) as u128).min(most);
                let cur = if m.funded == 0 { 0 } else { cur };
                ensure!(r.cur as u128 == cur, "round", "farm {} is in round {} instead of {}, after {}", id, r.cur, cur, what);
            } else if m.cleared {
                ensure!(r.unclaimed == 0, "left-over", "cleared farm {} still has {} unclaimed, after {}", id, r.unclaimed, what);
            }
        }
        for (s, i) in &b.seeds {
            let farms: std::collections::BTreeSet<String> = live.iter().filter(|x| x.1.seed == *s).map(|x| x.0.clone()).collect();
            ensure!(i.farms == farms, "seed-farms", "{} lists {:?} instead of {:?}, after {}", s, i.farms, farms, what);
            ensure!(i.next == self.next.get(s).copied().unwrap_or(0), "seed-index", "{} has had {} farms, reports {}, after {}", s, self.next.get(s).copied().unwrap_or(0), i.next, what);
            ensure!(i.min == get(&self.min, s), "seed-min", "{} asks at least {} instead of {}, after {}", s, i.min, get(&self.min, s), what);
        }
        Ok(())
    }
}
impl FWatch for Life {
    fn unclaimed(&self) -> bool {
        false
    }
    fn step(&mut self, f: &Fx, x: Option<&Executed>, a: &FSnap, b: &FSnap, st: &mut Stats) -> Res {
        let now = f.sec();
        self.b.advance(now);
        let x = match x {
            Some(x) if x.receiver == FA => x,
            Some(_) => return Ok(()),
            None => return self.compare(f, b, "time passed"),
        };
        let what = xshow(x);
        let v = x.args_json();
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let reward = x.method == "ft_on_transfer" && !s("msg").is_empty();
        if !a.paused && !x.injected {
            match x.method.as_str() {
                "ft_on_transfer" if reward => {
                    let m = self.b.farms.get(&s("msg"));
                    let good = m.map_or(false, |m| !m.cleared && m.token == x.predecessor && !m.ended(now));
                    ensure!(x.ok() == good, "reward-acceptance", "{} should be {}", what, if good { "accepted" } else { "refused" });
                    if x.ok() {
                        ensure!(x.json() == json!("0"), "reward-returned", "{}", what);
                    }
                    st.label(if good { "rewards accepted" } else { "rewards refused" });
                }
                "ft_on_transfer" | "mft_on_transfer" => {
                    let seed = if x.method == "mft_on_transfer" { mft_seed(x) } else { x.predecessor.clone() };
                    let good = s("msg").is_empty() && self.min.contains_key(&seed) && num_j(&v["amount"]) >= get(&self.min, &seed);
                    ensure!(good || !x.ok(), "stake-acceptance", "{} should be refused (at least {} of {})", what, get(&self.min, &seed), seed);
                    if good && a.ample(&s("sender_id")) {
                        ensure!(x.ok() && x.json() == json!("0"), "stake-acceptance", "{} should be accepted (at least {} of {})", what, get(&self.min, &seed), seed);
                    }
                    if !good {
                        st.label("stakes refused");
                    }
                }
                _ => {}
            }
        }
        if x.method == "force_clean_farm" && x.predecessor == OWNER {
            let id = s("farm_id");
            let good = self.b.farms.get(&id).map_or(false, |m| !m.cleared && m.ended(now));
            ensure!(x.ok() == true && x.json() == json!(good), "clean", "{} of a farm that {}", what, if good { "has ended" } else { "has not ended" });
            if good {
                // what nobody claimed is the beneficiary's
                let (p, q) = (&a.farms[&id], &b.old.get(&id));
                let q = match q {
                    Some(q) => q,
                    None => return viol("clean", format!("{}: the farm is not among the cleared ones", what)),
                };
                ensure!(q.ben == p.ben + p.unclaimed && q.claimed == p.claimed + p.unclaimed, "clean-left-over", "{}: {} unclaimed, the beneficiary had {} and has {}", what, p.unclaimed, p.ben, q.ben);
                self.b.farms.get_mut(&id).unwrap().cleared = true;
                self.cleaned += 1;
                st.label("farms cleaned");
            }
        }
        if x.ok() {
            if x.method == "create_simple_farm" {
                let seed = v["terms"]["seed_id"].as_str().unwrap().to_string();
                let k = self.next.get(&seed).copied().unwrap_or(0);
                ensure!(x.json() == json!(format!("{}#{}", seed, k)), "farm-id", "{}: expected number {}", what, k);
                self.next.insert(seed.clone(), k + 1);
                self.min.entry(seed).or_insert(if v["min_deposit"].is_null() { pow10(18) } else { num_j(&v["min_deposit"]) });
                self.b.created(x);
            }
            if x.method == "modify_seed_min_deposit" {
                self.min.insert(s("seed_id"), num_j(&v["min_deposit"]));
            }
            if let Some((farm, _, n)) = funding(x) {
                self.b.funded(&farm, n, now);
                self.b.advance(now);
            }
            if let Some((who, seed, d)) = stake_change(x) {
                let to = (self.b.st(&seed, &who) as i128 + d).max(0) as u128;
                self.b.restake(&seed, &who, to);
            }
            self.b.touch();
            // rewards released while nobody had staked go to the beneficiary, and nothing else before the end
            for (id, q) in &b.farms {
                let m = &self.b.farms[id];
                // (and what rounding left, when the last one leaves)
                ensure!(q.ben <= m.nobody + m.dust(), "beneficiary", "farm {}: {} is the beneficiary's, {} was released with no stake, after {}", id, q.ben, m.nobody, what);
                if self.b.total.get(&m.seed).copied().unwrap_or(0) > 0 {
                    ensure!(q.ben >= m.nobody, "beneficiary", "farm {}: {} is the beneficiary's instead of {} released with no stake, after {}", id, q.ben, m.nobody, what);
                }
            }
        }
        if self.b.farms.values().any(|m| m.ended(now)) {
            self.ended = true;
        }
        self.compare(f, b, &what)
    }
    fn finish(&mut self, f: &Fx, b: &FSnap, st: &mut Stats) -> Res {
        self.compare(f, b, "everything")?;
        let _ = &self.paid_ben;
        if self.b.farms.values().any(|m| m.released > 0) {
            st.hit();
        }
        if self.ended {
            st.label("histories with a farm that ends");
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WayCase {
    h: FHist,
    at: Vec<u16>,
    salt: u8,
}

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C40",
            "a generated history of farms, rewards, stakes, claims, withdrawals and clean-ups with failing transfers and receipts in generated order, against a ledger of rewards after every receipt; non-trivial: rewards were claimed and withdrawn",
            2400,
            100_000,
            || fhist(8..60, false),
            |h: &FHist, st| fdrive(h, &mut Ledger::default(), st).map(|_| ()),
        ),
        def(
            "C41",
            "a generated history against an independent account of each farmer's share of every release, after every receipt and change of time; non-trivial: at least two claims paid, and a release was shared",
            2400,
            100_000,
            || fhist(8..60, false),
            |h: &FHist, st| fdrive(h, &mut Fair::default(), st).map(|_| ()),
        ),
        def(
            "C42",
            "a generated history with failing transfers and receipts in generated order, against a ledger of stakes after every receipt; non-trivial: a stake was withdrawn and settled",
            3200,
            150_000,
            || fhist(5..50, true),
            |h: &FHist, st| fdrive(h, &mut Stakes::default(), st).map(|_| ()),
        ),
        def(
            "C43",
            "a generated history; at generated points one farmer, and in the end every farmer, claims, stakes more, withdraws everything in parts, leaves and comes back, on a fork; non-trivial: somebody held something on the way out",
            2000,
            80_000,
            || (fhist(5..40, true), prop::collection::vec(1u16..60, 0..3), any::<u8>()).prop_map(|(h, at, salt)| WayCase { h, at, salt }).boxed(),
            |c: &WayCase, st| fdrive(&c.h, &mut Way { at: c.at.clone(), salt: c.salt, ..Default::default() }, st).map(|_| ()),
        ),
        def(
            "C45",
            "a generated history against a closed form of what each farm has released, its status, round, list and beneficiary after every receipt and change of time, and which deposits and clean-ups are accepted; non-trivial: a farm released rewards",
            3200,
            150_000,
            || fhist(5..45, false),
            |h: &FHist, st| fdrive(h, &mut Life::default(), st).map(|_| ()),
        ),
    ]
}
