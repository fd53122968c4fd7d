//! C02: shares are conserved. C26: nobody's holdings shrink without their consent.
use super::*;
use crate::ensure;

pub const SWAPS: [&str; 4] = ["swap", "swap_by_output", "execute_actions", "execute_actions_in_va"];

pub fn pool_of_token_id(v: &str) -> Option<usize> {
    v.strip_prefix(':').and_then(|x| x.parse().ok())
}
/// pools named in swap actions
pub fn pools_of_actions(v: &serde_json::Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().filter_map(|x| x["pool_id"].as_u64()).map(|x| x as usize).collect()).unwrap_or_default()
}
/// the message inside an ft_on_transfer
pub fn inner_msg(x: &Executed) -> serde_json::Value {
    x.args_json()["msg"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or(serde_json::Value::Null)
}

struct Shares {
    moved: u32,
}
/// what a receipt may do to the shares of a pool
enum May {
    Nothing,
    /// +amount to the account, more to the protocol
    Mint(Vec<usize>, String, Option<u128>),
    /// protocol and referrer may gain in these pools
    Fees(Vec<usize>, bool),
    /// -amount, protocol may gain
    Burn(usize, String, Option<u128>),
    Move(usize, String, String, Option<u128>),
}
fn may(x: &Executed) -> May {
    let v = x.args_json();
    let who = x.predecessor.clone();
    let p = v["pool_id"].as_u64().unwrap_or(9999) as usize;
    let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
    let amt = |k: &str| if v[k].is_string() { Some(num(&v[k])) } else { None };
    match x.method.as_str() {
        "add_liquidity" | "add_stable_liquidity" => May::Mint(vec![p], who, Some(num(&x.json()))),
        "remove_liquidity" => May::Burn(p, who, amt("shares")),
        "remove_liquidity_by_tokens" => May::Burn(p, who, Some(num(&x.json()))),
        "remove_exchange_fee_liquidity" => May::Burn(p, EX.into(), amt("shares")),
        m if SWAPS.contains(&m) => May::Fees(pools_of_actions(&v["actions"]), v["referral_id"] == REFER),
        "ft_on_transfer" => {
            let m = inner_msg(x);
            if m["hot_zap_actions"].is_array() {
                let mut ps = pools_of_actions(&m["add_liquidity_infos"]);
                ps.extend(pools_of_actions(&m["hot_zap_actions"]));
                May::Mint(ps, s("sender_id"), None)
            } else {
                May::Fees(pools_of_actions(&m["actions"]), m["referral_id"] == REFER)
            }
        }
        "mft_transfer" | "mft_transfer_call" | "mft_transfer_all_call" => match pool_of_token_id(&s("token_id")) {
            Some(p) => May::Move(p, who, s("receiver_id"), if x.method == "mft_transfer_all_call" { None } else { amt("amount") }),
            None => May::Nothing,
        },
        "mft_resolve_transfer" => match pool_of_token_id(&s("token_id")) {
            Some(p) => May::Move(p, s("receiver_id"), s("sender_id"), None),
            None => May::Nothing,
        },
        "donation_share" => May::Move(p, who, EX.into(), amt("amount")),
        "on_burrow_liquidation" => {
            let p = s("shadow_id").split('-').nth(1).and_then(|x| x.parse().ok()).unwrap_or(9999);
            May::Burn(p, s("liquidation_account_id"), amt("liquidate_share_amount"))
        }
        _ => May::Nothing,
    }
}
impl Watch for Shares {
    fn spec(&self) -> SnapSpec {
        SnapSpec { pools: true, shares: true, ..SNAP_NONE }
    }
    fn start(&mut self, _e: &mut Ex, s: &Snap) -> Res {
        for p in 0..s.pools.len() {
            let sum: u128 = HOLDERS.iter().map(|h| s.sh(h, p)).sum();
            ensure!(sum == s.pools[p].supply, "supply-sum", "pool {}: supply {} but holders have {}", p, s.pools[p].supply, sum);
        }
        Ok(())
    }
    fn step(&mut self, e: &Ex, op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        for p in 0..b.pools.len() {
            let sum: u128 = HOLDERS.iter().map(|h| b.sh(h, p)).sum();
            ensure!(sum == b.pools[p].supply, "supply-sum", "pool {} after {}: supply {} but holders have {} [{}]", p, op_name(op), b.pools[p].supply, sum, show(run));
        }
        let x = run.executed.first();
        let m = match x {
            Some(x) if x.receiver == EX && x.ok() => may(x),
            _ => May::Nothing,
        };
        if let Some(x) = x {
            if x.receiver == EX && x.ok() && x.method.starts_with("mft_") {
                st.label(&x.method);
            }
            // the multi-token view tells the same
            if x.receiver == EX && x.ok() && !matches!(m, May::Nothing) {
                let p = self.moved as usize % b.pools.len();
                ensure!(num(&e.v("mft_total_supply", serde_json::json!({"token_id": format!(":{}", p)}))) == b.pools[p].supply, "mft-supply", "mft_total_supply of pool {} differs", p);
                let h = USERS[self.moved as usize % 4];
                ensure!(num(&e.v("mft_balance_of", serde_json::json!({"token_id": format!(":{}", p), "account_id": h}))) == b.sh(h, p), "mft-balance", "mft_balance_of {} in pool {} differs", h, p);
            }
        }
        for p in 0..b.pools.len() {
            for h in HOLDERS {
                let (x0, x1) = (a.sh(h, p), b.sh(h, p));
                if x0 == x1 {
                    continue;
                }
                self.moved += 1;
                let up = x1 > x0;
                let d = if up { x1 - x0 } else { x0 - x1 };
                let fee = (h == EX || h == REFER) && up;
                let (ok, why) = match &m {
                    May::Nothing => (false, "no shares may change"),
                    May::Mint(ps, w, amt) => {
                        let mine = h == w && up && ps.contains(&p) && amt.map_or(true, |x| x == d || (h == REFER && d > x));
                        (mine || (fee && ps.contains(&p)), "only the provider gains, exactly what was reported, and the protocol its fee")
                    }
                    May::Fees(ps, r) => (fee && ps.contains(&p) && (h == EX || *r), "only fee shares in the pools traded"),
                    May::Burn(q, w, amt) => {
                        // the protocol's own removal could hide a fee: none is due there
                        let mine = p == *q && h == w && !up && amt.map_or(true, |x| x == d || (h == EX && d <= x));
                        (mine || (p == *q && fee && h == EX), "only the remover loses, exactly what was burned")
                    }
                    May::Move(q, f, t, amt) => {
                        let e = amt.map_or(true, |x| x == d);
                        let mine = p == *q && ((h == f && !up && e) || (h == t && up && e) || (h == EX && up && run.executed[0].method == "mft_resolve_transfer"));
                        (mine && a.pools[p].supply == b.pools[p].supply, "shares only move between the two accounts")
                    }
                };
                ensure!(ok, "unexplained-shares", "pool {} {}: {} -> {} by {}; {} [{}]", p, h, x0, x1, op_name(op), why, show(run));
                if x0 > 0 && x1 > 0 && d == 0 {
                    unreachable!();
                }
            }
            // without protocol fees a trade mints nothing
            if let May::Fees(..) = m {
                let fee0 = e.v("metadata", serde_json::json!({}))["admin_fee_bps"].as_u64() == Some(0);
                ensure!(!fee0 || a.pools[p].supply == b.pools[p].supply, "fee-shares-at-zero", "pool {} minted shares although the protocol fee is 0 [{}]", p, show(run));
            }
        }
        Ok(())
    }
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, st: &mut Stats) -> Res {
        if self.moved >= 3 {
            st.hit();
        }
        Ok(())
    }
}

struct Consent {
    others: u32,
}
impl Watch for Consent {
    fn spec(&self) -> SnapSpec {
        SNAP_ALL
    }
    fn step(&mut self, _e: &Ex, op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        let x = match run.executed.first() {
            Some(x) => x.clone(),
            None => {
                // time and peers' moods change nobody's holdings
                for h in HOLDERS {
                    ensure!(a.dep.get(h) == b.dep.get(h) && a.shares.get(h) == b.shares.get(h) && a.locks.get(h) == b.locks.get(h) && a.lost.get(h) == b.lost.get(h), "changed-by-nothing", "{} changed by {}", h, op_name(op));
                }
                return Ok(());
            }
        };
        let v = x.args_json();
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let resolve = x.receiver == EX && x.method == "mft_resolve_transfer" && x.predecessor == EX;
        let liq = x.receiver == EX && x.method == "on_burrow_liquidation" && x.predecessor == BURROW;
        let mut seen = false;
        for h in HOLDERS {
            // what the protocol itself holds is at its owner's and guardians' disposal
            let own = x.signer == h || ((h == EX || h == OWNER) && (x.signer == OWNER || x.signer == GUARD));
            if own {
                continue;
            }
            for (t, d) in a.dep.get(h).into_iter().flatten() {
                let n = b.d(h, t);
                if *d > 0 {
                    seen = true;
                }
                if n < *d {
                    let ok = resolve && s("receiver_id") == h && s("token_id") == *t && d - n <= num(&v["amount"]);
                    ensure!(ok, "deposit-taken", "{}'s deposit of {} fell from {} to {} by {} of {} [{}]", h, t, d, n, op_name(op), x.signer, show(run));
                    st.label("returned from a receiver");
                }
            }
            for p in 0..a.pools.len() {
                let (d, n) = (a.sh(h, p), b.sh(h, p));
                if d > 0 {
                    seen = true;
                }
                if n < d {
                    let back = resolve && s("receiver_id") == h && s("token_id") == format!(":{}", p) && d - n <= num(&v["amount"]);
                    let taken = liq && s("liquidation_account_id") == h && s("shadow_id") == format!("shadow_ref_v1-{}", p) && d - n <= a.lock(h, p as u64).1 && d - n <= num(&v["liquidate_share_amount"]);
                    ensure!(back || taken, "shares-taken", "{}'s shares in pool {} fell from {} to {} by {} of {} [{}]", h, p, d, n, op_name(op), x.signer, show(run));
                    st.label(if back { "returned from a receiver" } else { "liquidated" });
                }
                let (l0, l1) = (a.lock(h, p as u64), b.lock(h, p as u64));
                if l0 != l1 {
                    let ok = liq && s("liquidation_account_id") == h && s("shadow_id") == format!("shadow_ref_v1-{}", p) && l1.0 <= l0.0 && l1.1 <= l0.1;
                    ensure!(ok, "lock-changed", "{}'s lock in pool {} went from {:?} to {:?} by {} of {} [{}]", h, p, l0, l1, op_name(op), x.signer, show(run));
                }
            }
            for (t, d) in a.lost.get(h).into_iter().flatten() {
                let n = b.lost.get(h).and_then(|m| m.get(t)).copied().unwrap_or(0);
                ensure!(n >= *d, "lostfound-taken", "{}'s claim on {} fell from {} to {} by {} of {} [{}]", h, t, d, n, op_name(op), x.signer, show(run));
            }
            if let Some((d, _)) = a.stor.get(h) {
                let n = b.stor.get(h).map(|x| x.0);
                ensure!(n.map_or(false, |n| n >= *d), "storage-credit-taken", "{}'s storage credit went from {} to {:?} by {} of {} [{}]", h, d, n, op_name(op), x.signer, show(run));
            }
        }
        if seen && x.receiver == EX && x.ok() {
            self.others += 1;
        }
        Ok(())
    }
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, st: &mut Stats) -> Res {
        if self.others >= 3 {
            st.hit();
        }
        Ok(())
    }
}

const SHARE_MIX: &[(u32, G)] = &[
    (2, G::Deposit), (1, G::Withdraw), (6, G::Add), (8, G::AddStable), (8, G::Remove), (8, G::RemoveBy), (10, G::Swap), (4, G::SwapOut),
    (5, G::Instant), (4, G::Zap), (8, G::MftPool), (2, G::MftReg), (3, G::Shadow), (3, G::Liquidate), (3, G::DonateShare),
    (2, G::FaultBot), (4, G::Step), (3, G::Drain), (2, G::OwnerFees), (3, G::Fees), (1, G::Rates), (1, G::Ramp), (1, G::StorUnreg),
];
const ALL_MIX: &[(u32, G)] = &[
    (4, G::Deposit), (5, G::Withdraw), (2, G::Claim), (2, G::Reg), (3, G::Stor), (1, G::StorUnreg),
    (3, G::Add), (4, G::AddStable), (4, G::Remove), (3, G::RemoveBy), (6, G::Swap), (3, G::SwapOut),
    (6, G::Instant), (4, G::Zap), (5, G::MftPool), (5, G::MftTok), (3, G::MftReg), (6, G::Shadow), (5, G::Liquidate),
    (2, G::DonateShare), (2, G::DonateToken), (4, G::FaultTok), (2, G::FaultHost), (2, G::FaultBot),
    (10, G::Step), (2, G::Drain), (1, G::Advance), (1, G::Rates), (3, G::OwnerFees), (1, G::Fees),
    (1, G::Ramp), (1, G::Freeze), (1, G::White), (1, G::Pause), (1, G::Echo), (1, G::Limit), (1, G::Twap),
];

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C02",
            "a generated history of up to 30 operations over ten pools of four kinds; non-trivial: shares of at least three (account, pool) pairs changed",
            2000,
            150_000,
            || hist(SHARE_MIX, 4..30),
            |h: &Hist, st| drive(h, &mut Shares { moved: 0 }, st).map(|_| ()),
        ),
        def(
            "C26",
            "a generated history of up to 36 operations of all actors; non-trivial: at least three successful receipts while accounts that did not sign them held something",
            1500,
            120_000,
            || hist(ALL_MIX, 6..36),
            |h: &Hist, st| drive(h, &mut Consent { others: 0 }, st).map(|_| ()),
        ),
    ]
}
