//! Every token the exchange owes is really there, after every single receipt of any history.
use super::*;
use crate::ensure;
use std::collections::BTreeMap;

struct W {
    dust_ops: u128,
    slack: BTreeMap<String, u128>,
    moved: u32,
    failed: u32,
}
pub fn gap(e: &Ex, s: &Snap, t: &str) -> (i128, String) {
    let real = e.ft(t, EX);
    let owed = s.owed(t);
    let fl = e.in_flight().get(t).copied().unwrap_or(0);
    let ar = e.arriving().get(t).copied().unwrap_or(0);
    (real as i128 - (owed + fl + ar) as i128, format!("holds {}, owes {}, leaving {}, arriving {}", real, owed, fl, ar))
}
impl Watch for W {
    fn spec(&self) -> SnapSpec {
        SNAP_TOKENS
    }
    fn start(&mut self, e: &mut Ex, s: &Snap) -> Res {
        for t in TOKENS {
            let (g, m) = gap(e, s, t.id);
            // seeding a pool may leave a fraction of one internal unit
            let dust = if t.dec > 18 { 3_000_000 } else { 3 };
            ensure!(g >= 0 && g <= dust, "insolvent", "{} after set-up: {}", t.id, m);
            self.slack.insert(t.id.into(), g as u128);
        }
        Ok(())
    }
    fn step(&mut self, e: &Ex, op: &Op, run: &OpRun, _a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        for x in &run.executed {
            let v = x.args_json();
            if x.method == "ft_resolve_transfer" && v["sender_id"] == EX && x.ok() {
                if num(&v["amount"]) > num(&x.json()) {
                    st.label("echo refunded");
                }
            }
            if x.receiver == EX && x.ok() && ["add_stable_liquidity", "remove_liquidity", "remove_liquidity_by_tokens", "swap", "execute_actions", "execute_actions_in_va", "swap_by_output", "ft_on_transfer", "on_burrow_liquidation", "remove_exchange_fee_liquidity"].contains(&x.method.as_str()) {
                self.dust_ops += 4;
            }
            if TOKENS.iter().any(|t| t.id == x.receiver) {
                if x.ok() {
                    self.moved += 1;
                } else {
                    self.failed += 1;
                    st.label("token transfer failed");
                }
            }
            if x.receiver == EX && x.method.starts_with("exchange_callback") {
                st.label("withdraw callback");
            }
        }
        for t in TOKENS {
            let (g, m) = gap(e, b, t.id);
            ensure!(g >= 0, &format!("insolvent:{}", if t.dec > 18 { "24dec" } else { "dec" }), "{} is short by {} after {}: {} [{}]", t.id, -g, op_name(op), m, show(run));
            let unit = if t.dec > 18 { 1_000_000 } else { 1 };
            let limit = self.slack[t.id] + self.dust_ops * unit + 4 * unit;
            ensure!(g as u128 <= limit, "tokens-lost", "{} {} are attributed to nobody after {}: {} [{}]", g, t.id, op_name(op), m, show(run));
        }
        Ok(())
    }
    fn finish(&mut self, e: &mut Ex, s: &Snap, st: &mut Stats) -> Res {
        for t in TOKENS {
            let (g, m) = gap(e, s, t.id);
            ensure!(g >= 0, "insolvent-end", "{}: {}", t.id, m);
        }
        if self.moved >= 2 {
            st.hit();
        }
        if self.failed > 0 {
            st.label("history with a failed transfer");
        }
        Ok(())
    }
}

const MIX: &[(u32, G)] = &[
    (8, G::Deposit), (8, G::Withdraw), (2, G::Claim), (2, G::Reg), (2, G::Stor), (1, G::StorUnreg),
    (5, G::Add), (6, G::AddStable), (6, G::Remove), (5, G::RemoveBy), (10, G::Swap), (4, G::SwapOut),
    (10, G::Instant), (5, G::Zap), (2, G::MftPool), (3, G::MftTok), (2, G::Shadow), (2, G::Liquidate),
    (1, G::DonateShare), (1, G::DonateToken), (5, G::FaultTok), (1, G::FaultHost), (1, G::FaultBot),
    (12, G::Step), (2, G::Drain), (1, G::Advance), (2, G::Rates), (2, G::OwnerFees), (1, G::Fees),
    (1, G::Ramp), (1, G::Freeze), (1, G::Echo),
];

pub fn defs() -> Vec<Def> {
    vec![def(
        "C01",
        "a generated history of up to 30 operations by users, owner, peers and faults, receipts executed in generated order; non-trivial: at least two token transfers between accounts took place",
        6000,
        200_000,
        || hist(MIX, 4..30),
        |h: &Hist, st| {
            let mut w = W { dust_ops: 0, slack: Default::default(), moved: 0, failed: 0 };
            drive(h, &mut w, st).map(|_| ())
        },
    )]
}
