//! C12: shares staked through a shadow cannot move until released. C13: exact liquidations.
use super::*;
use crate::ensure;
use crate::vm::{Action, PromiseRes};
use proptest::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Cast {
    callback: u64,
    to: bool,
    farm: bool,
    who: String,
    pool: u64,
    amount: u128,
}
#[derive(Default)]
struct Locks {
    open: Vec<Cast>,
    /// the lending market's own record was too small for what it liquidated
    odd: std::collections::BTreeSet<(String, u64)>,
    /// forced releases under way and the ones that failed
    forced: BTreeMap<u64, (String, u64, u128)>,
    lost: BTreeMap<(String, u64), u128>,
    changed: u32,
    overlap: bool,
    seq: u32,
}

/// calls to the shadow hosts started by a receipt: (receipt id, host, method, arguments, callback)
pub fn host_calls(e: &Ex, x: &Executed) -> Vec<(u64, String, String, serde_json::Value, Option<u64>)> {
    let mut v = vec![];
    for r in e.w.pending.iter().filter(|r| x.spawned.contains(&r.id)) {
        for a in &r.actions {
            if let Action::Call { method, args, .. } = a {
                if r.receiver == FARM || r.receiver == BURROW {
                    let cb = e.w.pending.iter().find(|c| c.receiver == EX && c.inputs.iter().any(|i| r.outputs.contains(i))).map(|c| c.id);
                    v.push((r.id, r.receiver.clone(), method.clone(), serde_json::from_slice(args).unwrap_or_default(), cb));
                }
            }
        }
    }
    v
}

pub fn shadow_pool(v: &serde_json::Value) -> u64 {
    v.as_str().unwrap_or("").split('-').nth(1).and_then(|x| x.parse().ok()).unwrap_or(9999)
}

/// tries, on a fork, the ways in which shares could leave their holder
fn probe(e: &Ex, who: &str, p: usize, s: &Snap, way: u32, st: &mut Stats) -> Res {
    let (f, b) = s.lock(who, p as u64);
    let all = s.sh(who, p);
    let free = all - f.max(b);
    let to = USERS.iter().find(|u| **u != who && s.sh(u, p) > 0).copied().unwrap_or(EX);
    let n = s.pools[p].tokens.len();
    let call = |x: u128| -> (&'static str, serde_json::Value) {
        match way % 5 {
            0 => ("mft_transfer", json!({"token_id": format!(":{}", p), "receiver_id": to, "amount": x.to_string()})),
            1 => ("mft_transfer_call", json!({"token_id": format!(":{}", p), "receiver_id": to, "amount": x.to_string(), "msg": ""})),
            2 => ("donation_share", json!({"pool_id": p, "amount": x.to_string()})),
            3 => ("remove_liquidity", json!({"pool_id": p, "shares": x.to_string(), "min_amounts": us(&vec![0; n])})),
            _ => ("remove_liquidity_by_tokens", json!({"pool_id": p, "amounts": us(&s.pools[p].amounts.iter().map(|a| crate::ops::mul_div(*a, x.min(s.pools[p].supply), s.pools[p].supply.max(1))).collect::<Vec<_>>()), "max_burn_shares": all.to_string()})),
        }
    };
    let mut g = e.clone();
    g.w.pending.clear();
    let (m, v) = call(free + 1 + (way as u128 * 0x9e37_79b9) % (f.max(b)));
    let r = g.w.tx(who, EX, m, v.clone(), 1);
    if r.ok() {
        let left = g.shares_of(who, p as u64);
        ensure!(left >= f.max(b), "locked-shares-left", "{} of {} in pool {} succeeded with {} shares, {} in the farm and {} in the lending market: {}", m, who, p, all, f, b, v);
    }
    st.label(&format!("probe over the free shares: {}", m));
    if free > 0 && way % 5 < 3 {
        let mut g = e.clone();
        let (m, v) = call(free);
        if m == "mft_transfer_call" || to == who {
            return Ok(());
        }
        let r = g.w.tx(who, EX, m, v.clone(), 1);
        let running = e.v("metadata", json!({}))["state"] == "Running";
        ensure!(r.ok() || !running, "free-shares-held", "{} of {} in pool {} refused with {} shares, {} in the farm and {} in the lending market: {} {:?}", m, who, p, all, f, b, v, r.result);
        st.label("probe at the free shares");
    }
    Ok(())
}

impl Watch for Locks {
    fn spec(&self) -> SnapSpec {
        SnapSpec { pools: true, shares: true, locks: true, stor: true, ..SNAP_NONE }
    }
    fn step(&mut self, e: &Ex, op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        let x = match run.executed.first() {
            Some(x) => x,
            None => return Ok(()),
        };
        self.seq += 1;
        let mut exp = a.locks.clone();
        {
            let mut set = |who: &str, p: u64, f: &dyn Fn((u128, u128)) -> (u128, u128)| {
                let m = exp.entry(who.to_string()).or_default();
                let n = f(m.get(&p).copied().unwrap_or((0, 0)));
                if n == (0, 0) {
                    m.remove(&p);
                } else {
                    m.insert(p, n);
                }
                if m.is_empty() {
                    exp.remove(who);
                }
            };
            let v = x.args_json();
            if x.receiver == EX && x.method == "shadow_action" {
                let p = v["pool_id"].as_u64().unwrap();
                let kind = v["action"].as_str().unwrap();
                let (to, farm) = (kind.starts_with("To"), kind.ends_with("Farming"));
                let who = x.predecessor.clone();
                let (f0, b0) = a.lock(&who, p);
                let lock = if farm { f0 } else { b0 };
                let max = if to { a.sh(&who, p as usize).saturating_sub(lock) } else { lock };
                let amount = if v["amount"].is_null() { max } else { num(&v["amount"]) };
                let valid = amount > 0 && amount <= max;
                if x.ok() {
                    ensure!(valid, "too-much-locked", "{} of {} accepted for {} with {} shares, locks {:?} in pool {}", kind, amount, who, a.sh(&who, p as usize), (f0, b0), p);
                    let hc = host_calls(e, x);
                    let host = if farm { FARM } else { BURROW };
                    let m = if to { "on_cast_shadow" } else { "on_remove_shadow" };
                    ensure!(
                        hc.len() == 1 && hc[0].1 == host && hc[0].2 == m && hc[0].3["account_id"] == *who && shadow_pool(&hc[0].3["shadow_id"]) == p && num(&hc[0].3["amount"]) == amount && hc[0].4.is_some(),
                        "wrong-host-call",
                        "{} of {} in pool {} by {} calls {:?}",
                        kind,
                        amount,
                        p,
                        who,
                        hc
                    );
                    if self.open.iter().any(|c| c.who == who && c.pool == p) {
                        self.overlap = true;
                    }
                    self.open.push(Cast { callback: hc[0].4.unwrap(), to, farm, who: who.clone(), pool: p, amount });
                    if to {
                        set(&who, p, &|(f, b)| if farm { (f + amount, b) } else { (f, b + amount) });
                    }
                    st.label(kind);
                } else if valid && a.stor.contains_key(&who) && x.deposit > 1 && e.v("metadata", json!({}))["state"] == "Running" {
                    return viol("valid-lock-refused", format!("{} of {} refused for {} with {} shares, locks {:?}: {:?}", kind, amount, who, a.sh(&who, p as usize), (f0, b0), x.result));
                }
            } else if let Some(i) = self.open.iter().position(|c| c.callback == x.id) {
                let c = self.open.remove(i);
                let ok = matches!(x.inputs.first(), Some(PromiseRes::Ok(_)));
                st.label(&format!("{} {} {}", if c.to { "lock" } else { "release" }, if c.farm { "farm" } else { "lending market" }, if ok { "confirmed" } else { "refused" }));
                ensure!(x.ok(), "settlement-failed", "{:?} could not be settled: {:?}, locks {:?}", c, x.result, a.lock(&c.who, c.pool));
                if x.ok() && c.to != ok {
                    // a refused lock or a confirmed release
                    set(&c.who, c.pool, &|(f, b)| if c.farm { (f.saturating_sub(c.amount), b) } else { (f, b.saturating_sub(c.amount)) });
                }
            } else if x.receiver == EX && x.method == "on_burrow_liquidation" && x.ok() {
                let who = v["liquidation_account_id"].as_str().unwrap().to_string();
                let p = shadow_pool(&v["shadow_id"]);
                let l = num(&v["liquidate_share_amount"]);
                let left = a.sh(&who, p as usize) - l;
                let f0 = a.lock(&who, p).0;
                set(&who, p, &|(f, b)| (f.min(left), b - l.min(b)));
                if f0 > left {
                    for h in host_calls(e, x) {
                        self.forced.insert(h.0, (who.clone(), p, f0 - left));
                    }
                }
                st.label("liquidation");
            }
        }
        if let Some((who, p, n)) = self.forced.remove(&x.id) {
            if !x.ok() {
                *self.lost.entry((who, p)).or_insert(0) += n;
            }
        }
        ensure!(exp == b.locks, "wrong-locks", "after {} the locks are {:?}, expected {:?} [{}]", op_name(op), b.locks, exp, show(run));
        if a.locks != b.locks {
            self.changed += 1;
        }
        for (who, m) in &b.locks {
            for (p, (f, bu)) in m {
                let s = b.sh(who, *p as usize);
                ensure!(s >= *f && s >= *bu, "lock-over-shares", "{} has {} shares in pool {} but {} and {} are locked, after {} [{}]", who, s, p, f, bu, op_name(op), show(run));
                if (self.seq + *p as u32) % 7 == 0 && x.receiver == EX {
                    probe(e, who, *p as usize, b, self.seq / 7 + *p as u32, st)?;
                }
            }
        }
        Ok(())
    }
    fn before(&mut self, e: &Ex, op: &Op, s: &Snap) -> Res {
        if let Op::Liquidate { of, pool, .. } = op {
            if let Some(c) = e.call_of(op) {
                let who = crate::ops::user(*of).to_string();
                let p = *pool as u64 % POOLS as u64;
                let rec = e.w.model(BURROW).shadow().rec.get(&(who.clone(), format!("shadow_ref_v1-{}", p))).copied().unwrap_or(0);
                let _ = s;
                if rec < num(&c.args["liquidate_share_amount"]) {
                    self.odd.insert((who, p));
                }
            }
        }
        Ok(())
    }
    fn finish(&mut self, e: &mut Ex, s: &Snap, st: &mut Stats) -> Res {
        ensure!(self.open.is_empty(), "unsettled", "never settled: {:?}", self.open);
        for u in USERS {
            for p in 0..POOLS as u64 {
                let key = (u.to_string(), format!("shadow_ref_v1-{}", p));
                let fr = e.w.model(FARM).shadow().rec.get(&key).copied().unwrap_or(0);
                let br = e.w.model(BURROW).shadow().rec.get(&key).copied().unwrap_or(0);
                let (f, b) = s.lock(u, p);
                let k = (u.to_string(), p);
                let lost = self.lost.get(&k).copied().unwrap_or(0);
                ensure!(f <= fr && f + lost >= fr, "farm-mismatch", "{} in pool {}: the exchange has {} locked for the farm, the farm {} (forced releases it refused: {})", u, p, f, fr, lost);
                ensure!(b == br || self.odd.contains(&k), "market-mismatch", "{} in pool {}: the exchange has {} locked for the lending market, which has {}", u, p, b, br);
            }
        }
        let mut n = 0;
        for (who, m) in &s.locks {
            for p in m.keys() {
                if n < 2 {
                    probe(e, who, *p as usize, s, self.seq + n, st)?;
                    n += 1;
                }
            }
        }
        if self.changed >= 2 {
            st.hit();
        }
        if self.overlap {
            st.label("history with overlapping calls on one pool");
        }
        Ok(())
    }
}

#[derive(Default)]
struct Liq {
    done: u32,
    frozen: Vec<String>,
}
impl Watch for Liq {
    fn spec(&self) -> SnapSpec {
        SNAP_ALL
    }
    fn before(&mut self, e: &Ex, op: &Op, _s: &Snap) -> Res {
        if let Op::Liquidate { .. } = op {
            self.frozen = serde_json::from_value(e.v("get_frozenlist_tokens", json!({}))).unwrap_or_default();
        }
        Ok(())
    }
    fn step(&mut self, e: &Ex, _op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        let x = match run.executed.first() {
            Some(x) if x.receiver == EX && x.method == "on_burrow_liquidation" => x,
            Some(x) if x.receiver == EX && x.method == "callback_on_burrow_liquidation" => {
                ensure!(a == b, "changed-by-notice", "the settlement of a forced release changed something");
                st.label(if matches!(x.inputs.first(), Some(PromiseRes::Ok(_))) { "forced release confirmed" } else { "forced release refused" });
                return Ok(());
            }
            _ => return Ok(()),
        };
        let v = x.args_json();
        let who = v["liquidation_account_id"].as_str().unwrap().to_string();
        let by = v["liquidator_account_id"].as_str().unwrap().to_string();
        let p = shadow_pool(&v["shadow_id"]) as usize;
        let l = num(&v["liquidate_share_amount"]);
        let mins = nums(&v["min_token_amounts"]);
        let pool = &a.pools[p];
        let (f0, b0) = a.lock(&who, p as u64);
        let sh = a.sh(&who, p);
        // what the shares are worth
        let (books, floor): (Vec<u128>, u128) = if pool.simple() { (pool.amounts.clone(), 0) } else { (pool.c_amounts.clone(), pow10(pool.target() - 3)) };
        let mut take = vec![];
        let mut out = vec![];
        for i in 0..books.len() {
            let c = if pool.supply == 0 { 0 } else { crate::ops::mul_div(books[i], l, pool.supply) };
            take.push(c);
            out.push(if pool.simple() { c } else { pool.from_c(i, c) });
        }
        let valid = x.predecessor == BURROW
            && l > 0
            && l <= b0
            && a.stor.contains_key(&who)
            && a.stor.contains_key(&by)
            && !pool.tokens.iter().any(|t| self.frozen.contains(t))
            && mins.len() == out.len()
            && (0..out.len()).all(|i| out[i] >= mins[i] && books[i] - take[i] >= floor);
        if !x.ok() {
            ensure!(!valid, "valid-liquidation-refused", "{:?} with {} shares, locks {:?}: {:?}", v, sh, (f0, b0), x.result);
            ensure!(a == b && x.spawned.is_empty(), "refused-but-changed", "{:?}", v);
            if x.predecessor == BURROW && b0 > 0 {
                st.label("liquidation refused for a debtor with locks");
            }
            return Ok(());
        }
        ensure!(x.predecessor == BURROW, "wrong-caller", "{} liquidated", x.predecessor);
        ensure!(l <= b0, "more-than-locked", "{} of {} locked shares were taken from {}", l, b0, who);
        // (a call for nothing changes nothing, so it does no harm)
        if l > 0 {
            ensure!(valid, "invalid-liquidation-accepted", "{:?} with {} shares, locks {:?}, frozen {:?}, worth {:?}", v, sh, (f0, b0), self.frozen, out);
        }
        let left = sh - l;
        let force = f0.saturating_sub(left);
        let mut c = a.clone();
        c.shares.get_mut(&who).unwrap()[p] = left;
        let q = &mut c.pools[p];
        q.supply -= l;
        for i in 0..out.len() {
            if q.simple() {
                q.amounts[i] -= take[i];
            } else {
                q.c_amounts[i] -= take[i];
                q.amounts[i] = q.from_c(i, q.c_amounts[i]);
            }
            if out[i] > 0 {
                *c.dep.entry(by.clone()).or_default().entry(pool.tokens[i].clone()).or_insert(0) += out[i];
            }
        }
        let lk = (f0 - force, b0 - l);
        let m = c.locks.entry(who.clone()).or_default();
        if lk == (0, 0) {
            m.remove(&(p as u64));
        } else {
            m.insert(p as u64, lk);
        }
        if m.is_empty() {
            c.locks.remove(&who);
        }
        ensure!(c.shares == b.shares, "wrong-shares", "liquidating {} of {}'s {} in pool {} left {:?}, expected {:?}", l, who, sh, p, b.shares, c.shares);
        ensure!(c.pools == b.pools, "wrong-pool", "liquidating {} in pool {}: {:?}, expected {:?}", l, p, b.pools[p], c.pools[p]);
        ensure!(c.dep == b.dep, "wrong-payout", "liquidating {} in pool {}: liquidator {} should get {:?}: {:?} -> {:?}", l, p, by, out, a.dep.get(&by), b.dep.get(&by));
        ensure!(c.locks == b.locks, "wrong-locks", "liquidating {} of {} shares with locks {:?} left {:?}, expected {:?}", l, sh, (f0, b0), b.locks.get(&who), lk);
        ensure!(c.lost == b.lost, "wrong-lostfound", "liquidation changed the lost-and-found");
        for h in HOLDERS {
            let (s0, s1) = (a.stor.get(h).map(|s| s.0), b.stor.get(h).map(|s| s.0));
            ensure!(s0 == s1 || (h == who && s1 > s0 && lk == (0, 0)), "wrong-storage", "liquidation changed {}'s storage credit from {:?} to {:?}", h, s0, s1);
        }
        let hc = super::locks::host_calls(e, x);
        if force > 0 {
            ensure!(
                hc.len() == 1 && hc[0].1 == FARM && hc[0].2 == "on_remove_shadow" && hc[0].3["account_id"] == *who && shadow_pool(&hc[0].3["shadow_id"]) as usize == p && num(&hc[0].3["amount"]) == force,
                "wrong-forced-release",
                "{} must be released from the farm, but {:?}",
                force,
                hc
            );
            st.label("with forced release from the farm");
        } else {
            ensure!(hc.is_empty(), "needless-forced-release", "{:?}", hc);
        }
        if l > 0 {
            self.done += 1;
            st.label(&format!("liquidated in a {} pool", pool.kind));
        }
        Ok(())
    }
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, st: &mut Stats) -> Res {
        if self.done > 0 {
            st.hit();
        }
        Ok(())
    }
}

/// steers operations on locks to a few accounts and pools, so that they meet
fn narrow(h: &mut Hist, k: u8) {
    for o in h.ops.iter_mut() {
        let f = |p: &mut u8| *p = [0u8, 3, 4, 1][((*p as usize) + k as usize) % 4 % (1 + k as usize % 3)];
        match o {
            Op::Shadow { who, pool, .. } | Op::DonateShare { who, pool, .. } | Op::Remove { who, pool, .. } | Op::RemoveBy { who, pool, .. } => {
                f(pool);
                *who = 2 + *who % 2;
            }
            Op::Mft { who, pool, .. } => {
                f(pool);
                *who = 2 + *who % 2;
            }
            Op::Liquidate { of, pool, .. } => {
                f(pool);
                *of = 2 + *of % 2;
            }
            _ => {}
        }
    }
}
pub fn lock_hist(w: &'static [(u32, G)], len: std::ops::Range<usize>) -> BoxedStrategy<Hist> {
    (hist(w, len), any::<u8>())
        .prop_map(|(mut h, k)| {
            narrow(&mut h, k);
            for l in h.setup.liq.iter_mut().take(5) {
                *l = (*l).max(1);
            }
            h
        })
        .boxed()
}
/// carol gets part of dave's shares, so that two of the users have some in every pool
pub fn spread(e: &mut Ex) {
    for p in 0..POOLS {
        let s = e.shares_of("dave.near", p as u64);
        if s > 0 {
            e.share_reg(p, "carol.near");
            e.must("dave.near", "mft_transfer", json!({"token_id": format!(":{}", p), "receiver_id": "carol.near", "amount": (s / 3).to_string()}), 1);
        }
    }
}

const LOCK_MIX: &[(u32, G)] = &[
    (30, G::Shadow), (8, G::Liquidate), (4, G::Remove), (3, G::RemoveBy), (4, G::MftPool), (4, G::DonateShare), (2, G::Add), (2, G::AddStable),
    (4, G::FaultHost), (22, G::Step), (3, G::Drain), (1, G::StorUnreg), (2, G::Swap), (1, G::Pause), (1, G::OwnerFees), (1, G::MftReg),
];
const LIQ_MIX: &[(u32, G)] = &[
    (24, G::Shadow), (22, G::Liquidate), (3, G::Remove), (2, G::MftPool), (2, G::DonateShare), (2, G::Add), (2, G::AddStable),
    (2, G::FaultHost), (10, G::Step), (6, G::Drain), (1, G::StorUnreg), (3, G::Swap), (1, G::Freeze), (1, G::Pause), (1, G::Rates),
];

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C12",
            "a generated history of up to 36 operations, mostly locks, releases, liquidations and removals on a few pools, receipts in generated order with failing peers; non-trivial: locks changed at least twice",
            2000,
            150_000,
            || lock_hist(LOCK_MIX, 5..36),
            |h: &Hist, st| drive_from(h, &mut Locks::default(), st, spread).map(|_| ()),
        ),
        def(
            "C13",
            "a generated history of up to 30 operations, mostly locks and liquidations; non-trivial: at least one liquidation of shares succeeded",
            1600,
            150_000,
            || {
                lock_hist(LIQ_MIX, 5..26)
                    .prop_map(|mut h| {
                        // most liquidations are of something that was locked at some earlier time
                        let mut at: Vec<(usize, u8, u8, u8)> = vec![];
                        for (i, o) in h.ops.iter().enumerate() {
                            if let Op::Liquidate { by, of, pool, min, .. } = o {
                                if min & 16 == 0 {
                                    at.push((i - (*by as usize + *min as usize / 32) % (i + 1), *of, *pool, *min));
                                }
                            }
                        }
                        at.sort();
                        for (i, of, pool, x) in at.into_iter().rev() {
                            h.ops.insert(i, Op::Drain);
                            h.ops.insert(i, Op::Shadow { who: of, pool, kind: 1, a: Some(Amt::Frac(20_000 + x as u16 * 90)), poor: false });
                        }
                        h
                    })
                    .boxed()
            },
            |h: &Hist, st| drive_from(h, &mut Liq::default(), st, spread).map(|_| ()),
        ),
    ]
}
