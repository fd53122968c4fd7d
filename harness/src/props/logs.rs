//! C51: what the exchange logs is what happened.
use super::holdings::{inner_msg, pool_of_token_id, SWAPS};
use super::*;
use crate::ensure;
use crate::vm::Action;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Debug)]
struct Trade {
    inn: u128,
    tin: String,
    out: u128,
    tout: String,
    /// total and protocol fee
    fee: Option<(u128, u128)>,
}
#[derive(Default, Debug)]
struct Told {
    trades: Vec<Trade>,
    exchange: Vec<u128>,
    referral: Vec<(String, u128)>,
    minted: Vec<(Option<String>, u128)>,
    burnt: Vec<u128>,
    /// with tokens, or plain numbers in the order of the pool
    added: Vec<Vec<(String, u128)>>,
    removed: Vec<Vec<(Option<String>, u128)>>,
    moves: Vec<(String, u128, String, String)>,
    events: Vec<Value>,
    remain: Option<BTreeMap<String, u128>>,
}
fn words(s: &str) -> Vec<String> {
    s.split(|c: char| c.is_whitespace() || "[]{}\",:".contains(c)).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}
fn n(w: &[String], i: usize) -> Option<u128> {
    w.get(i).and_then(|x| x.parse().ok())
}
fn read(logs: &[String]) -> Option<Told> {
    let mut t = Told::default();
    for l in logs {
        if let Some(j) = l.strip_prefix("EVENT_JSON:") {
            t.events.push(serde_json::from_str(j).ok()?);
            continue;
        }
        let w = words(l);
        let at = |i: usize| w.get(i).map(|x| &x[..]).unwrap_or("");
        match at(0) {
            "Swapped" | "Swap_by_output" => t.trades.push(Trade {
                inn: n(&w, 1)?,
                tin: at(2).into(),
                out: n(&w, 4)?,
                tout: at(5).into(),
                fee: if at(6) == "total" { Some((n(&w, 8)?, n(&w, 11)?)) } else { None },
            }),
            "Exchange" if at(2) == "got" => {
                t.exchange.push(n(&w, 3)?);
                if at(5) == "Referral" {
                    t.referral.push((at(6).into(), n(&w, 8)?));
                }
            }
            "Liquidity" => {
                let k = w.iter().position(|x| x == "minted")?;
                t.added.push((2..k).step_by(2).map(|i| n(&w, i).map(|x| (at(i + 1).to_string(), x))).collect::<Option<_>>()?);
                t.minted.push((None, n(&w, k + 1)?));
            }
            "Mint" => t.minted.push((Some(at(4).into()), n(&w, 1)?)),
            "LP" => {
                t.burnt.push(n(&w, 3)?);
                if at(2) == "remove" {
                    t.removed.push((8..w.len()).map(|i| n(&w, i).map(|x| (None, x))).collect::<Option<_>>()?);
                }
            }
            "Transfer" if at(1) == "shares" => t.moves.push((format!(":{}", at(2)), n(&w, 4)?, at(6).into(), at(8).into())),
            "Transfer" => t.moves.push((at(1).into(), n(&w, 2)?, at(4).into(), at(6).into())),
            "HotZap" => t.remain = Some((5..w.len()).step_by(2).map(|i| n(&w, i + 1).map(|x| (at(i).to_string(), x))).collect::<Option<_>>()?),
            _ if at(1) == "shares" && at(2) == "of" && at(4).starts_with("removed") => {
                t.burnt.push(n(&w, 0)?);
                t.removed.push((7..w.len()).step_by(2).map(|i| n(&w, i).map(|x| (Some(at(i + 1).to_string()), x))).collect::<Option<_>>()?);
            }
            _ => {}
        }
    }
    Some(t)
}

#[derive(Default)]
struct W {
    told: u32,
    admin_fee: u128,
}
type D = BTreeMap<String, i128>;
fn dep_delta(a: &Snap, b: &Snap, who: &str) -> D {
    let mut m = D::new();
    for (s, k) in [(a, -1i128), (b, 1)] {
        for (t, x) in s.dep.get(who).into_iter().flatten() {
            *m.entry(t.clone()).or_insert(0) += k * *x as i128;
        }
    }
    m.retain(|_, x| *x != 0);
    m
}
fn net(trades: &[Trade]) -> D {
    let mut m = D::new();
    for t in trades {
        *m.entry(t.tin.clone()).or_insert(0) -= t.inn as i128;
        *m.entry(t.tout.clone()).or_insert(0) += t.out as i128;
    }
    m.retain(|_, x| *x != 0);
    m
}
fn gain(a: &Snap, b: &Snap, who: &str) -> i128 {
    (0..POOLS).map(|p| b.sh(who, p) as i128 - a.sh(who, p) as i128).sum()
}
fn sum(v: &[u128]) -> i128 {
    v.iter().sum::<u128>() as i128
}
const KNOWN: [&str; 13] = [
    "swap", "swap_by_output", "execute_actions", "execute_actions_in_va", "ft_on_transfer", "add_liquidity", "add_stable_liquidity", "remove_liquidity",
    "remove_liquidity_by_tokens", "remove_exchange_fee_liquidity", "on_burrow_liquidation", "donation_share", "donation_token",
];
impl Watch for W {
    fn spec(&self) -> SnapSpec {
        SnapSpec { dep: true, pools: true, shares: true, ..SNAP_NONE }
    }
    fn start(&mut self, e: &mut Ex, _s: &Snap) -> Res {
        self.admin_fee = e.v("metadata", serde_json::json!({}))["admin_fee_bps"].as_u64().unwrap() as u128;
        Ok(())
    }
    fn step(&mut self, e: &Ex, op: &Op, r: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        for x in &r.executed {
            let at = || show(&OpRun { call: None, executed: vec![x.clone()] });
            if x.receiver != EX || !x.ok() {
                continue;
            }
            let m = x.method.as_str();
            let t = match read(&x.logs) {
                Some(t) => t,
                None => return viol("unreadable", format!("{:?} by {}", x.logs, at())),
            };
            let v = x.args_json();
            let msg = inner_msg(x);
            let zap = msg["hot_zap_actions"].is_array();
            let who = if m == "ft_on_transfer" || m == "on_burrow_liquidation" { v[if m == "ft_on_transfer" { "sender_id" } else { "liquidation_account_id" }].as_str().unwrap_or("").to_string() } else { x.predecessor.clone() };
            let says = |k: &str| format!("{} by {}, logged {:?}", k, at(), x.logs);
            if !(KNOWN.contains(&m) || m.starts_with("mft_transfer")) {
                if m != "mft_resolve_transfer" {
                    ensure!(t.trades.is_empty() && t.exchange.is_empty() && t.minted.is_empty() && t.burnt.is_empty() && t.moves.is_empty() && t.events.is_empty(), "told-too-much", "{}", says("nothing of the kind happens"));
                }
                continue;
            }
            if !(t.trades.is_empty() && t.exchange.is_empty() && t.minted.is_empty() && t.burnt.is_empty() && t.moves.is_empty() && t.events.is_empty()) {
                self.told += 1;
                st.label(&format!("{}{}", m, if zap { " with liquidity" } else { "" }));
            }
            // moves of shares by a transfer or donation
            if m.starts_with("mft_transfer") {
                let id = v["token_id"].as_str().unwrap().to_string();
                let to = v["receiver_id"].as_str().unwrap().to_string();
                ensure!(t.moves.len() == 1 && t.moves[0].0 == id && t.moves[0].2 == who && t.moves[0].3 == to, "transfer-told", "{}", says("the transfer"));
                let y = t.moves[0].1 as i128;
                if who != to {
                    let (f, g) = match pool_of_token_id(&id) {
                        Some(p) => (b.sh(&who, p) as i128 - a.sh(&who, p) as i128, b.sh(&to, p) as i128 - a.sh(&to, p) as i128),
                        None => (b.d(&who, &id) as i128 - a.d(&who, &id) as i128, b.d(&to, &id) as i128 - a.d(&to, &id) as i128),
                    };
                    // what the farming contract of the tests and others hold is not followed
                    ensure!(f == -y && (g == y || !HOLDERS.contains(&&to[..])), "transfer-told", "{} -> {}: {}", f, g, says("the amount"));
                }
                continue;
            }
            if m.starts_with("donation") {
                let share = m == "donation_share";
                ensure!(t.events.len() == 1 && t.events[0]["event"] == m && t.events[0]["data"].as_array().map(|d| d.len()) == Some(1), "event", "{}", says("the event"));
                let ev = &t.events[0];
                let d = &ev["data"][0];
                let to = if share { EX } else { OWNER };
                let y = if share {
                    let p = v["pool_id"].as_u64().unwrap();
                    ensure!(d["pool_id"] == p, "event", "{}", says("the pool"));
                    b.sh(to, p as usize) - a.sh(to, p as usize)
                } else {
                    let id = v["token_id"].as_str().unwrap();
                    ensure!(d["token_id"] == id, "event", "{}", says("the token"));
                    b.d(to, id) - a.d(to, id)
                };
                ensure!(ev["standard"] == "exchange.ref" && d["account_id"] == who && (num(&d["amount"]) == y || who == to), "event", "{} went to {}: {}", y, to, says("the event"));
                continue;
            }
            // shares
            let got = gain(a, b, EX);
            let burnt = sum(&t.burnt);
            let minted = t.minted.iter().map(|x| x.1).sum::<u128>() as i128;
            let own = m == "remove_exchange_fee_liquidity";
            ensure!(got == sum(&t.exchange) - if own { burnt } else { 0 }, "exchange-told", "the exchange's shares change by {}: {}", got, says("its share"));
            for (k, y) in &t.referral {
                ensure!(k == REFER, "referral-told", "{}: {} to {}", says("who refers"), y, k);
            }
            if who != REFER {
                let (f, g) = (gain(a, b, REFER), t.referral.iter().map(|x| x.1).sum::<u128>() as i128);
                ensure!(f == g, "referral-told", "the referrer's shares change by {}: {}", f, says("its share"));
            }
            for (w, _) in &t.minted {
                ensure!(w.as_ref().map_or(true, |w| *w == who), "minted-told", "{}", says("for whom"));
            }
            if !own {
                let f = gain(a, b, &who);
                ensure!(f == minted - burnt, "shares-told", "the shares of {} change by {}: {}", who, f, says("shares"));
            }
            // trades
            let dd = dep_delta(a, b, &who);
            if SWAPS.contains(&m) {
                ensure!(dd == net(&t.trades), "trades-told", "deposits of {} change by {:?}: {}", who, dd, says("trades"));
                let acts = v["actions"].as_array().unwrap();
                ensure!(acts.len() == t.trades.len(), "trades-told", "{} actions: {}", acts.len(), says("trades"));
            }
            if m == "ft_on_transfer" {
                let acts = msg[if zap { "hot_zap_actions" } else { "actions" }].as_array().cloned().unwrap_or_default();
                ensure!(acts.len() == t.trades.len(), "trades-told", "{} actions: {}", acts.len(), says("trades"));
                if zap {
                    let d: D = t.remain.clone().unwrap_or_default().into_iter().filter(|x| x.1 > 0).map(|(k, x)| (k, x as i128)).collect();
                    ensure!(d == dd, "remainder-told", "deposits of {} change by {:?}: {}", who, dd, says("the remainder"));
                } else if !acts.is_empty() {
                    // what was sent less what is kept goes into the pools, what comes out of them is paid
                    let mut pools = D::new();
                    for (p, q) in a.pools.iter().zip(&b.pools) {
                        for i in 0..p.tokens.len() {
                            *pools.entry(p.tokens[i].clone()).or_insert(0) += q.amounts[i] as i128 - p.amounts[i] as i128;
                        }
                    }
                    for (tk, y) in net(&t.trades) {
                        let unit = pow10((dec_of(&tk) as u32).saturating_sub(18)) as i128 * t.trades.len() as i128;
                        let z = pools.remove(&tk).unwrap_or(0);
                        ensure!((z + y).abs() <= unit, "trades-told", "the pools' {} changes by {}: {}", tk, z, says("trades"));
                    }
                    // and exactly so to whom it is due
                    let last: u128 = t.trades.last().map(|x| x.out).unwrap_or(0);
                    let paid: Vec<u128> = e
                        .w
                        .pending
                        .iter()
                        .filter(|p| x.spawned.contains(&p.id))
                        .flat_map(|p| p.actions.iter())
                        .filter_map(|a| match a {
                            Action::Call { method, args, .. } if ["ft_transfer", "ft_transfer_call", "near_withdraw"].contains(&method.as_str()) => {
                                serde_json::from_slice::<Value>(args).ok().map(|v| num(&v["amount"]))
                            }
                            _ => None,
                        })
                        .collect();
                    if let [y] = paid[..] {
                        if t.trades.len() == 1 {
                            ensure!(y == last, "paid-told", "{} is paid: {}", y, says("the trade"));
                            st.label("payment compared");
                        }
                    }
                }
            }
            // fees of a stable-like trade
            let acts = if m == "ft_on_transfer" { msg[if zap { "hot_zap_actions" } else { "actions" }].clone() } else { v["actions"].clone() };
            for (k, tr) in t.trades.iter().enumerate() {
                let p = acts[k]["pool_id"].as_u64().unwrap_or(0) as usize;
                ensure!(acts[k]["token_in"] == tr.tin && acts[k]["token_out"] == tr.tout, "trades-told", "action {}: {}", k, says("tokens"));
                ensure!(tr.fee.is_none() == a.pools[p].simple(), "fees-told", "{}", says("fees"));
                if let Some((f, g)) = tr.fee {
                    let unit = pow10((dec_of(&tr.tout) as u32).saturating_sub(18));
                    let gross = tr.out + f;
                    let want = mul_div(gross, a.pools[p].fee as u128, 10_000);
                    let near = |x: u128, y: u128| x.abs_diff(y) <= 2 * unit + y / 1_000_000_000;
                    ensure!(near(f, want), "fees-told", "of {} at {}: {} expected: {}", gross, a.pools[p].fee, want, says("the fee"));
                    let want = mul_div(f, self.admin_fee, 10_000);
                    ensure!(near(g, want), "fees-told", "of {} at {}: {} expected: {}", f, self.admin_fee, want, says("the protocol's fee"));
                    st.label("fees of a stable-like trade");
                }
            }
            // liquidity
            let p = v["pool_id"].as_u64().unwrap_or(0) as usize;
            let mut d = D::new();
            match m {
                "add_liquidity" => {
                    ensure!(t.added.len() == 1, "added-told", "{}", says("liquidity"));
                    t.added[0].iter().for_each(|(k, x)| *d.entry(k.clone()).or_insert(0) -= *x as i128);
                }
                "add_stable_liquidity" => {
                    for (k, x) in a.pools[p].tokens.iter().zip(nums(&v["amounts"])) {
                        d.insert(k.clone(), -(x as i128));
                    }
                }
                "remove_liquidity" | "remove_exchange_fee_liquidity" => {
                    ensure!(t.removed.len() == 1 && t.removed[0].len() == a.pools[p].tokens.len(), "removed-told", "{}", says("liquidity"));
                    for (k, (id, x)) in t.removed[0].iter().enumerate() {
                        ensure!(id.as_ref().map_or(true, |id| *id == a.pools[p].tokens[k]), "removed-told", "{}", says("tokens"));
                        d.insert(a.pools[p].tokens[k].clone(), *x as i128);
                    }
                }
                _ => {}
            }
            d.retain(|_, x| *x != 0);
            if m == "add_liquidity" || m == "add_stable_liquidity" || m == "remove_liquidity" {
                ensure!(d == dd, "liquidity-told", "deposits of {} change by {:?}: {}", who, dd, says("liquidity"));
            }
            if own {
                let z = dep_delta(a, b, OWNER);
                ensure!(d == z, "liquidity-told", "deposits of {} change by {:?}: {}", OWNER, z, says("liquidity"));
            }
            if m == "remove_liquidity_by_tokens" {
                ensure!(t.burnt.len() == 1 && t.burnt[0] == num(&x.json()), "removed-told", "{}", says("shares"));
            }
        }
        if let Op::AdminFee { .. } = op {
            self.admin_fee = e.v("metadata", serde_json::json!({}))["admin_fee_bps"].as_u64().unwrap() as u128;
        }
        Ok(())
    }
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, st: &mut Stats) -> Res {
        if self.told >= 3 {
            st.hit();
        }
        Ok(())
    }
}
pub fn defs() -> Vec<Def> {
    vec![def(
        "C51",
        "a generated history of up to 30 operations with what every receipt logs; non-trivial: at least three receipts logged amounts",
        800,
        60_000,
        || hist(&[(8, G::Add), (8, G::AddStable), (6, G::Remove), (6, G::RemoveBy), (14, G::Swap), (6, G::SwapOut), (8, G::Instant), (8, G::Zap), (6, G::MftPool), (3, G::MftTok), (2, G::MftReg), (2, G::Shadow), (4, G::Liquidate), (4, G::DonateShare), (4, G::DonateToken), (3, G::Fees), (4, G::OwnerFees), (3, G::Step), (2, G::Drain), (2, G::Rates)], 5..30),
        |h: &Hist, st: &mut Stats| drive(h, &mut W::default(), st).map(|_| ()),
    )]
}
