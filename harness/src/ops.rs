//! Operations on the exchange: their generators (proptest strategies) and their execution.
use crate::chain::*;
use crate::ex::*;
use crate::models::Recv;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// An amount relative to whatever the operation naturally refers to (a balance, a reserve).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Amt {
    /// x / 65535 of the reference
    Frac(u16),
    All,
    Small(u8),
    /// d * 10^e
    Log(u8, u8),
    /// reference + 1 + x
    Over(u8),
}
impl Amt {
    pub fn of(&self, frac_ref: u128, all_ref: u128) -> u128 {
        match self {
            Amt::Frac(x) => mul_div(frac_ref, *x as u128, 65535),
            Amt::All => all_ref,
            Amt::Small(x) => *x as u128,
            Amt::Log(e, d) => pow10((*e as u32).min(36)).saturating_mul((*d).max(1) as u128),
            Amt::Over(x) => all_ref.saturating_add(1 + *x as u128),
        }
    }
}
pub fn mul_div(a: u128, b: u128, c: u128) -> u128 {
    use num_bigint::BigUint;
    let r = BigUint::from(a) * BigUint::from(b) / BigUint::from(c);
    big_u128(&r).unwrap_or(u128::MAX)
}
pub fn big_u128(b: &num_bigint::BigUint) -> Option<u128> {
    if b.bits() > 128 {
        return None;
    }
    let mut x = 0u128;
    for d in b.to_u32_digits().iter().rev() {
        x = (x << 32) | *d as u128;
    }
    Some(x)
}

pub fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        10 => any::<u16>().prop_map(Amt::Frac),
        2 => Just(Amt::All),
        2 => (0u8..20).prop_map(Amt::Small),
        3 => (0u8..31, 1u8..100).prop_map(|(e, d)| Amt::Log(e, d)),
        1 => (0u8..3).prop_map(Amt::Over),
    ]
    .boxed()
}
/// amounts that are nearly always acceptable
pub fn amt_ok() -> BoxedStrategy<Amt> {
    prop_oneof![
        12 => (1u16..=65535).prop_map(Amt::Frac),
        2 => Just(Amt::All),
        2 => (1u8..200).prop_map(Amt::Small),
        3 => (0u8..26, 1u8..100).prop_map(|(e, d)| Amt::Log(e, d)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Path {
    pub tok: u8,
    /// each byte picks the next (pool, token out) among the pools that trade the current token
    pub hops: Vec<u8>,
    /// more first-hop amounts: every hop with a bit set names its own amount
    pub split: u8,
    /// nonzero: corrupt the path in some way
    pub bad: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    TokenPaused(u8, bool),
    /// token account of the actor is (un)registered at the token
    Blocked(u8, u8, bool),
    FarmFails(bool),
    BurrowFails(bool),
    Bot(u8),
    OracleDown(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Deposit { who: u8, tok: u8, a: Amt },
    Withdraw { who: u8, tok: u8, a: Amt, unreg: bool, skip: u8 },
    Claim { who: u8, tok: u8 },
    RegTokens { who: u8, mask: u8, on: bool },
    StorDeposit { who: u8, to: u8, only: bool, milli: u16 },
    StorWithdraw { who: u8, a: Amt },
    StorUnreg { who: u8 },
    Add { who: u8, pool: u8, a: [Amt; 2], min: u8 },
    AddStable { who: u8, pool: u8, a: [Amt; 3], min: u8 },
    Remove { who: u8, pool: u8, a: Amt, min: u8 },
    RemoveBy { who: u8, pool: u8, a: [Amt; 3], max: u8 },
    Swap { who: u8, path: Path, a: Amt, refer: bool, via: u8, attach: bool },
    SwapOut { who: u8, path: Path, a: Amt, refer: bool, via: u8, attach: bool },
    Instant { who: u8, path: Path, a: Amt, refer: bool, to: u8, echo: bool, skip: u8, by_out: bool },
    Zap { who: u8, path: Path, a: Amt, pools: Vec<u8>, adds: Vec<[Amt; 3]>, min: u8 },
    Mft { who: u8, to: u8, pool: u8, tok: Option<u8>, a: Amt, mode: u8 },
    MftReg { who: u8, to: u8, pool: u8, on: bool },
    Shadow { who: u8, pool: u8, kind: u8, a: Option<Amt>, poor: bool },
    Liquidate { by: u8, of: u8, pool: u8, a: Amt, min: u8 },
    DonateShare { who: u8, pool: u8, a: Option<Amt>, unreg: u8 },
    DonateToken { who: u8, tok: u8, a: Option<Amt>, unreg: u8 },
    Fault(Fault),
    Step { k: u8, fail: bool },
    Drain,
    Advance { secs: u32 },
    /// new staking rates / prices at the peers; `sync` also tells the exchange
    Rates { rate: u32, price: u32, sync: bool },
    UpdateRate { tok: u8 },
    UpdateDegen { mask: u8 },
    OwnerWithdraw { tok: u8, a: Amt, skip: u8 },
    RemoveFees { pool: u8, a: Amt },
    AdminFee { bps: u16 },
    TotalFee { pool: u8, fee: u16 },
    Ramp { pool: u8, amp: u16, days: u8 },
    StopRamp { pool: u8 },
    Freeze { tok: u8, on: bool },
    White { tok: u8, on: bool },
    Pause { on: bool, by: u8 },
    Referral { bps: u16, kind: u8 },
    Twap { pool: u8, on: bool },
    Echo { tok: u8, on: bool },
    Limit { pool: u8, tvl: Amt, kind: u8 },
}

pub fn actor(i: u8) -> &'static str {
    ACTORS[i as usize % ACTORS.len()]
}
pub fn user(i: u8) -> &'static str {
    USERS[i as usize % USERS.len()]
}

/// A transaction about to be sent.
#[derive(Clone, Debug)]
pub struct Call {
    pub signer: String,
    pub to: String,
    pub method: String,
    pub args: Value,
    pub deposit: u128,
}
#[derive(Clone, Debug)]
pub struct OpRun {
    pub call: Option<Call>,
    pub executed: Vec<Executed>,
}
impl OpRun {
    pub fn ok(&self) -> bool {
        !self.executed.is_empty() && self.executed.iter().all(|e| e.ok())
    }
    pub fn first_ok(&self) -> bool {
        self.executed.first().map_or(false, |e| e.ok())
    }
}
fn call(signer: &str, to: &str, method: &str, args: Value, deposit: u128) -> Option<Call> {
    Some(Call { signer: signer.into(), to: to.into(), method: method.into(), args, deposit })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hop {
    pub pool: usize,
    pub tin: String,
    pub tout: String,
}
impl Path {
    /// (pools are those of `e`)
    pub fn hops_of(&self, pools: &[PoolS], simple_only: bool) -> Vec<Hop> {
        let mut cur = tok(self.tok as usize).id.to_string();
        let mut v = vec![];
        for h in &self.hops {
            let mut opts = vec![];
            for (i, p) in pools.iter().enumerate() {
                if simple_only && !p.simple() {
                    continue;
                }
                if p.idx(&cur).is_some() {
                    for t in &p.tokens {
                        if *t != cur {
                            opts.push(Hop { pool: i, tin: cur.clone(), tout: t.clone() });
                        }
                    }
                }
            }
            if opts.is_empty() {
                break;
            }
            let o = opts[*h as usize % opts.len()].clone();
            cur = o.tout.clone();
            v.push(o);
        }
        if !v.is_empty() {
            match self.bad {
                1 => v[0].pool = (v[0].pool + 1) % pools.len(),
                2 => v[0].tout = v[0].tin.clone(),
                3 => {
                    let l = v.len() - 1;
                    v[l].tout = "nosuch.near".into();
                }
                4 => v[0].pool = 99,
                5 => {
                    let l = v.len() - 1;
                    v[l].tin = tok(self.tok as usize + 1).id.into();
                }
                // a trade that pools can do but that does not lead on to the next
                10..=13 => {
                    let l = if self.bad == 13 { v.len() - 1 } else { 0 };
                    let mut opts = vec![];
                    for (i, p) in pools.iter().enumerate().filter(|x| x.1.simple() || !simple_only) {
                        for a in &p.tokens {
                            for b in p.tokens.iter().filter(|b| *b != a) {
                                if if l == 0 { v.len() > 1 && *b != v[1].tin } else { *a != v[l - 1].tout } {
                                    opts.push(Hop { pool: i, tin: a.clone(), tout: b.clone() });
                                }
                            }
                        }
                    }
                    if !opts.is_empty() {
                        v[l] = opts[self.hops[0] as usize % opts.len()].clone();
                    }
                }
                _ => {}
            }
        }
        v
    }
}

/// swap actions along a path; the amount is spent on the first hop
pub fn swap_actions(hops: &[Hop], amount: u128, split: u8, mins: &[u128]) -> Value {
    Value::Array(
        hops.iter()
            .enumerate()
            .map(|(i, h)| {
                let own = i == 0 || split & (1 << i) != 0;
                let mut o = json!({"pool_id": h.pool, "token_in": h.tin, "token_out": h.tout, "min_amount_out": mins.get(i).copied().unwrap_or(0).to_string()});
                if own {
                    o["amount_in"] = json!((amount >> (if i == 0 { 0 } else { 1 })).to_string());
                }
                o
            })
            .collect(),
    )
}
/// by-output actions run from the last hop to the first
pub fn swap_out_actions(hops: &[Hop], amount: u128, split: u8, max: Option<u128>) -> Value {
    Value::Array(
        hops.iter()
            .rev()
            .enumerate()
            .map(|(i, h)| {
                let mut o = json!({"pool_id": h.pool, "token_in": h.tin, "token_out": h.tout});
                if i == 0 || split & (1 << i) != 0 {
                    o["amount_out"] = json!((amount >> (if i == 0 { 0 } else { 1 })).to_string());
                }
                if i + 1 == hops.len() {
                    if let Some(m) = max {
                        o["max_amount_in"] = json!(m.to_string());
                    }
                }
                o
            })
            .collect(),
    )
}
fn refer(on: bool) -> Value {
    if on { json!(REFER) } else { Value::Null }
}
fn opt_bool(k: u8) -> Value {
    match k % 3 {
        0 => Value::Null,
        1 => json!(false),
        _ => json!(true),
    }
}
fn degen_skip(k: u8) -> Value {
    if k & 4 != 0 { json!(true) } else { Value::Null }
}

impl Ex {
    fn adds(&self, who: &str, p: &PoolS, a: &[Amt]) -> Vec<u128> {
        p.tokens
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let r = if p.amounts[i] > 0 { p.amounts[i] } else { units(t, 1000) };
                a[i.min(a.len() - 1)].of(r, self.deposit_of(who, t))
            })
            .collect()
    }

    /// The transaction an operation stands for in the present state, if it is one.
    pub fn call_of(&self, op: &Op) -> Option<Call> {
        match op {
            Op::Deposit { who, tok: t, a } => {
                let (w, t) = (actor(*who), tok(*t as usize));
                let bal = self.ft(t.id, w);
                call(w, t.id, "ft_transfer_call", json!({"receiver_id": EX, "amount": a.of(bal / 1000, bal).to_string(), "msg": ""}), 1)
            }
            Op::Withdraw { who, tok: t, a, unreg, skip } => {
                let w = actor(*who);
                // one of the tokens it holds, if any
                let held: Vec<usize> = self.deposits(w).keys().filter_map(|k| TOKENS.iter().position(|t| t.id == k)).collect();
                let t = if *t < 8 && !held.is_empty() { tok(held[*t as usize % held.len()]) } else { tok(*t as usize) };
                let d = self.deposit_of(w, t.id);
                call(w, EX, "withdraw", json!({"token_id": t.id, "amount": a.of(d, d).to_string(), "unregister": unreg, "skip_unwrap_near": opt_bool(*skip)}), 1)
            }
            Op::Claim { who, tok: t } if *t < 8 => {
                let w = actor(*who);
                let m = map_num(&self.v("list_lostfound_tokens", json!({"account_id": w})));
                let id = m.keys().nth(*t as usize % m.len().max(1)).map(|s| &s[..]).unwrap_or(tok(*t as usize).id);
                call(w, EX, "claim_lostfound", json!({ "token_id": id }), 1)
            }
            Op::Claim { who, tok: t } => call(actor(*who), EX, "claim_lostfound", json!({"token_id": tok(*t as usize).id}), 1),
            Op::RegTokens { who, mask, on } => {
                let ids: Vec<&str> = TOKENS.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, t)| t.id).collect();
                call(actor(*who), EX, if *on { "register_tokens" } else { "unregister_tokens" }, json!({ "token_ids": ids }), 1)
            }
            Op::StorDeposit { who, to, only, milli } => {
                call(actor(*who), EX, "storage_deposit", json!({"account_id": actor(*to), "registration_only": only}), *milli as u128 * pow10(20))
            }
            Op::StorWithdraw { who, a } => {
                let w = actor(*who);
                let b = self.v("storage_balance_of", json!({"account_id": w}));
                let av = if b.is_null() { 0 } else { num(&b["available"]) };
                call(w, EX, "storage_withdraw", json!({"amount": a.of(av, av).to_string()}), 1)
            }
            Op::StorUnreg { who } => call(actor(*who), EX, "storage_unregister", json!({}), 1),
            Op::Add { who, pool, a, min } => {
                let w = actor(*who);
                let p = self.pool(*pool as usize % POOLS);
                let am = self.adds(w, &p, a);
                let mut args = json!({"pool_id": *pool as usize % POOLS, "amounts": us(&am)});
                match min % 4 {
                    0 => {}
                    1 => args["min_amounts"] = us(&am.iter().map(|x| x / 2).collect::<Vec<_>>()),
                    2 => args["min_amounts"] = us(&am),
                    _ => args["min_amounts"] = us(&vec![0; am.len()]),
                }
                call(w, EX, "add_liquidity", args, NEAR / 100)
            }
            Op::AddStable { who, pool, a, min } => {
                let w = actor(*who);
                let p = self.pool(*pool as usize % POOLS);
                let am = self.adds(w, &p, a);
                let m = if min % 4 == 3 { pow10(24) } else { (*min % 4) as u128 };
                call(w, EX, "add_stable_liquidity", json!({"pool_id": *pool as usize % POOLS, "amounts": us(&am), "min_shares": m.to_string()}), NEAR / 100)
            }
            Op::Remove { who, pool, a, min } => {
                let w = actor(*who);
                let i = *pool as usize % POOLS;
                let p = self.pool(i);
                let s = self.shares_of(w, i as u64);
                let m: Vec<u128> = p.amounts.iter().map(|x| if min % 4 == 3 { *x } else { (*min % 4) as u128 }).collect();
                call(w, EX, "remove_liquidity", json!({"pool_id": i, "shares": a.of(s, s).to_string(), "min_amounts": us(&m)}), 1)
            }
            Op::RemoveBy { who, pool, a, max } => {
                let w = actor(*who);
                let i = *pool as usize % POOLS;
                let p = self.pool(i);
                let s = self.shares_of(w, i as u64);
                let am: Vec<u128> = p
                    .amounts
                    .iter()
                    .enumerate()
                    .map(|(k, x)| {
                        let own = if p.supply > 0 { mul_div(*x, s, p.supply) } else { *x };
                        a[k % 3].of(own, own)
                    })
                    .collect();
                let m = if max % 4 == 0 { s / 2 } else { u128::MAX / 2 };
                call(w, EX, "remove_liquidity_by_tokens", json!({"pool_id": i, "amounts": us(&am), "max_burn_shares": m.to_string()}), 1)
            }
            Op::Swap { who, path, a, refer: r, via, attach } => {
                let w = actor(*who);
                let pools = self.pools();
                let hops = path.hops_of(&pools, false);
                let h = hops.first()?;
                let res = pools.get(h.pool).and_then(|p| p.idx(&h.tin).map(|i| p.amounts[i])).unwrap_or(1000);
                let x = a.of(res, self.deposit_of(w, &h.tin));
                let acts = swap_actions(&hops, x, path.split, &[]);
                let dep = if *attach { 1 } else { 0 };
                match via % 3 {
                    0 => call(w, EX, "swap", json!({"actions": acts, "referral_id": refer(*r), "skip_degen_price_sync": degen_skip(*via)}), dep),
                    1 => call(w, EX, "execute_actions", json!({"actions": acts, "referral_id": refer(*r), "skip_degen_price_sync": degen_skip(*via)}), dep),
                    _ => {
                        let mut use_tokens = serde_json::Map::new();
                        for (i, h) in hops.iter().enumerate() {
                            if i == 0 || path.split & (1 << i) != 0 {
                                let amt = x >> (if i == 0 { 0 } else { 1 });
                                let old = use_tokens.get(&h.tin).map(num).unwrap_or(0);
                                use_tokens.insert(h.tin.clone(), json!((old.saturating_add(amt)).to_string()));
                            }
                        }
                        if path.bad == 6 {
                            use_tokens.insert("usdc.near".into(), json!("777"));
                        }
                        call(w, EX, "execute_actions_in_va", json!({"use_tokens": use_tokens, "actions": acts, "referral_id": refer(*r), "skip_degen_price_sync": degen_skip(*via)}), dep)
                    }
                }
            }
            Op::SwapOut { who, path, a, refer: r, via, attach } => {
                let w = actor(*who);
                let pools = self.pools();
                let hops = path.hops_of(&pools, path.bad == 0 || path.bad >= 10);
                let h = hops.last()?;
                let res = pools.get(h.pool).and_then(|p| p.idx(&h.tout).map(|i| p.amounts[i])).unwrap_or(1000);
                let x = a.of(res / 2, res);
                let max = if path.bad == 7 { Some(1000) } else { None };
                let acts = swap_out_actions(&hops, x, path.split, max);
                let dep = if *attach { 1 } else { 0 };
                match via % 3 {
                    0 => call(w, EX, "swap_by_output", json!({"actions": acts, "referral_id": refer(*r), "skip_degen_price_sync": degen_skip(*via)}), dep),
                    1 => call(w, EX, "execute_actions", json!({"actions": acts, "referral_id": refer(*r), "skip_degen_price_sync": degen_skip(*via)}), dep),
                    _ => {
                        let have = self.deposit_of(w, &hops[0].tin);
                        call(w, EX, "execute_actions_in_va", json!({"use_tokens": {hops[0].tin.clone(): have.to_string()}, "actions": acts, "referral_id": refer(*r), "skip_degen_price_sync": degen_skip(*via)}), dep)
                    }
                }
            }
            Op::Instant { who, path, a, refer: r, to, echo, skip, by_out } => {
                let w = actor(*who);
                let pools = self.pools();
                let hops = path.hops_of(&pools, *by_out);
                let h = hops.first()?;
                let bal = self.ft(&h.tin, w);
                let res = pools.get(h.pool).and_then(|p| p.idx(&h.tin).map(|i| p.amounts[i])).unwrap_or(1000);
                let x = a.of(res.min(bal), bal.min(res.saturating_mul(1000)));
                let acts = if *by_out {
                    let l = hops.last()?;
                    let out = pools.get(l.pool).and_then(|p| p.idx(&l.tout).map(|i| p.amounts[i])).unwrap_or(1000);
                    swap_out_actions(&hops, mul_div(out, x.min(res), res.max(1).saturating_mul(4)), path.split, None)
                } else {
                    let mut acts = swap_actions(&hops, x, path.split, &[]);
                    if path.bad != 7 {
                        acts[0].as_object_mut().unwrap().remove("amount_in");
                    } else {
                        acts[0]["amount_in"] = json!((x / 2).to_string());
                    }
                    acts
                };
                let mut m = json!({"referral_id": refer(*r), "actions": acts});
                if *echo {
                    m["client_echo"] = json!("hello");
                }
                if *to > 0 {
                    m["swap_out_recipient"] = json!(actor(*to));
                }
                m["skip_unwrap_near"] = opt_bool(*skip);
                m["skip_degen_price_sync"] = degen_skip(*skip);
                let msg = if path.bad == 9 { "{garbage".to_string() } else { m.to_string() };
                call(w, &h.tin, "ft_transfer_call", json!({"receiver_id": EX, "amount": x.to_string(), "msg": msg}), 1)
            }
            Op::Zap { who, path, a, pools: pp, adds, min } => {
                let w = actor(*who);
                let pools = self.pools();
                let by_out = min & 0x60 == 0x60;
                let hops = path.hops_of(&pools, by_out && (path.bad == 0 || path.bad >= 10));
                let h = hops.first()?;
                let bal = self.ft(&h.tin, w);
                let res = pools.get(h.pool).and_then(|p| p.idx(&h.tin).map(|i| p.amounts[i])).unwrap_or(1000);
                let x = a.of(res.min(bal), bal.min(res.saturating_mul(1000)));
                // spend part of what was sent, keep the rest for the liquidity
                let spend = if path.split & 1 != 0 || by_out { x / 2 } else { x };
                let (acts, out) = if by_out {
                    let l = hops.last()?;
                    let there = pools.get(l.pool).and_then(|p| p.idx(&l.tout).map(|i| p.amounts[i])).unwrap_or(1000);
                    let out = mul_div(there, spend.min(res), res.max(1).saturating_mul(4));
                    (swap_out_actions(&hops, out, path.split, None), out)
                } else {
                    let mut acts = swap_actions(&hops, spend, path.split & 0xfe, &[]);
                    if spend == x {
                        acts[0].as_object_mut().unwrap().remove("amount_in");
                    }
                    // expected output of the first hop, to ask for feasible liquidity amounts
                    let out = self
                        .tv("get_return", json!({"pool_id": h.pool, "token_in": h.tin, "amount_in": spend.to_string(), "token_out": h.tout}))
                        .map(|v| num(&v))
                        .unwrap_or(0);
                    (acts, out)
                };
                let last = hops.last().unwrap().tout.clone();
                let mut infos = vec![];
                for (k, pi) in pp.iter().enumerate() {
                    let mut cands: Vec<usize> = (0..pools.len())
                        .filter(|i| pools[*i].idx(&last).is_some() && pools[*i].supply > 0 && (!pools[*i].simple() || pools[*i].idx(&h.tin).is_some()))
                        .collect();
                    if cands.is_empty() {
                        cands = (0..pools.len()).filter(|i| pools[*i].idx(&last).is_some()).collect();
                    }
                    let i = if path.bad == 8 || cands.is_empty() { *pi as usize % POOLS } else { cands[*pi as usize % cands.len()] };
                    let p = &pools[i];
                    let mut am: Vec<u128> = p
                        .tokens
                        .iter()
                        .enumerate()
                        .map(|(j, t)| {
                            let have = if *t == h.tin { x - spend } else if *t == last { if hops.len() == 1 || by_out { out } else { p.amounts[j] / 100 } } else { 0 };
                            let have = have / pp.len().max(1) as u128;
                            adds.get(k).map(|a| a[j % 3].of(have, have)).unwrap_or(have)
                        })
                        .collect();
                    if p.simple() && am.iter().any(|x| *x == 0) && path.bad != 8 {
                        // a simple pool wants all its tokens
                        am = am.iter().map(|x| (*x).max(1)).collect();
                    }
                    let mut o = json!({"pool_id": i, "amounts": us(&am)});
                    if p.simple() {
                        let m: Vec<u128> = am.iter().map(|x| if min % 4 == 3 { *x } else { 0 }).collect();
                        o["min_amounts"] = us(&m);
                    } else {
                        o["min_shares"] = json!((if min % 4 == 3 { pow10(24) } else { *min as u128 % 4 }).to_string());
                    }
                    infos.push(o);
                }
                let m = json!({"referral_id": refer(min & 4 != 0), "hot_zap_actions": acts, "add_liquidity_infos": infos});
                call(w, &h.tin, "ft_transfer_call", json!({"receiver_id": EX, "amount": x.to_string(), "msg": m.to_string()}), 1)
            }
            Op::Mft { who, to, pool, tok: t, a, mode } => {
                let w = actor(*who);
                let to = actor(*to);
                let (id, bal) = match t {
                    Some(t) => (tok(*t as usize).id.to_string(), self.deposit_of(w, tok(*t as usize).id)),
                    None => (format!(":{}", *pool as usize % POOLS), self.shares_of(w, *pool as u64 % POOLS as u64)),
                };
                let x = a.of(bal, bal).to_string();
                match mode % 3 {
                    0 => call(w, EX, "mft_transfer", json!({"token_id": id, "receiver_id": to, "amount": x}), 1),
                    1 => call(w, EX, "mft_transfer_call", json!({"token_id": id, "receiver_id": to, "amount": x, "msg": "m"}), 1),
                    _ => call(w, EX, "mft_transfer_all_call", json!({"token_id": id, "receiver_id": to, "msg": "m"}), 1),
                }
            }
            Op::MftReg { who, to, pool, on } => {
                let id = format!(":{}", *pool as usize % POOLS);
                if *on {
                    call(actor(*who), EX, "mft_register", json!({"token_id": id, "account_id": actor(*to)}), NEAR / 100)
                } else {
                    call(actor(*who), EX, "mft_unregister", json!({ "token_id": id }), 1)
                }
            }
            Op::Shadow { who, pool, kind, a, poor } => {
                let w = actor(*who);
                let i = *pool as usize % POOLS;
                let s = self.shares_of(w, i as u64);
                let (f, b) = self.locks_of(w).get(&(i as u64)).copied().unwrap_or((0, 0));
                let (name, r) = match kind % 4 {
                    0 => ("ToFarming", s.saturating_sub(f)),
                    1 => ("ToBurrowland", s.saturating_sub(b)),
                    2 => ("FromFarming", f),
                    _ => ("FromBurrowland", b),
                };
                let x = a.as_ref().map(|a| json!(a.of(r, r).to_string())).unwrap_or(Value::Null);
                call(w, EX, "shadow_action", json!({"action": name, "pool_id": i, "amount": x, "msg": ""}), if *poor { 1 } else { NEAR / 100 })
            }
            Op::Liquidate { by, of, pool, a, min } => {
                let i = *pool as usize % POOLS;
                let v = user(*of);
                let (_, b) = self.locks_of(v).get(&(i as u64)).copied().unwrap_or((0, 0));
                let p = self.pool(i);
                let m: Vec<u128> = p.amounts.iter().map(|x| if min % 4 == 3 { *x } else { (*min % 4) as u128 }).collect();
                let caller = match min {
                    255 => "mallory.near",
                    254 => FARM,
                    253 => OWNER,
                    252 => actor(*by),
                    251 => EX,
                    _ => BURROW,
                };
                call(caller, EX, "on_burrow_liquidation", json!({"liquidator_account_id": actor(*by), "liquidation_account_id": v, "shadow_id": format!("shadow_ref_v1-{}", i), "liquidate_share_amount": a.of(b, b).to_string(), "min_token_amounts": us(&m)}), 0)
            }
            Op::DonateShare { who, pool, a, unreg } => {
                let w = actor(*who);
                let i = *pool as usize % POOLS;
                let s = self.shares_of(w, i as u64);
                call(w, EX, "donation_share", json!({"pool_id": i, "amount": a.as_ref().map(|a| a.of(s, s).to_string()), "unregister": opt_bool(*unreg)}), 1)
            }
            Op::DonateToken { who, tok: t, a, unreg } => {
                let w = actor(*who);
                let t = tok(*t as usize).id;
                let s = self.deposit_of(w, t);
                call(w, EX, "donation_token", json!({"token_id": t, "amount": a.as_ref().map(|a| a.of(s, s).to_string()), "unregister": opt_bool(*unreg)}), 1)
            }
            Op::UpdateRate { tok: t } => call("mallory.near", EX, "update_token_rate", json!({"token_id": tok(*t as usize).id}), 0),
            Op::UpdateDegen { mask } => {
                let ids: Vec<&str> = [WRAP, "eth.bridge.near", "usdc.near", "dai.near"].iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, t)| *t).collect();
                call("mallory.near", EX, "batch_update_degen_token_price", json!({ "token_ids": ids }), 0)
            }
            Op::OwnerWithdraw { tok: t, a, skip } => {
                let t = tok(*t as usize).id;
                let s = self.deposit_of(OWNER, t);
                call(OWNER, EX, "withdraw_owner_token", json!({"token_id": t, "amount": a.of(s, s).to_string(), "skip_unwrap_near": opt_bool(*skip)}), 1)
            }
            Op::RemoveFees { pool, a } => {
                let i = *pool as usize % POOLS;
                let s = self.shares_of(EX, i as u64);
                let n = self.pool(i).tokens.len();
                call(OWNER, EX, "remove_exchange_fee_liquidity", json!({"pool_id": i, "shares": a.of(s, s).to_string(), "min_amounts": us(&vec![0; n])}), 1)
            }
            Op::AdminFee { bps } => call(OWNER, EX, "modify_admin_fee", json!({ "admin_fee_bps": bps }), 1),
            Op::TotalFee { pool, fee } => call(OWNER, EX, "modify_total_fee", json!({"pool_id": *pool as usize % POOLS, "total_fee": fee}), 1),
            Op::Ramp { pool, amp, days } => call(OWNER, EX, "stable_swap_ramp_amp", json!({"pool_id": *pool as usize % POOLS, "future_amp_factor": *amp as u64, "future_amp_time": (self.w.now + (*days as u64 * 86_400 + 3600) * 1_000_000_000).to_string()}), 1),
            Op::StopRamp { pool } => call(OWNER, EX, "stable_swap_stop_ramp_amp", json!({"pool_id": *pool as usize % POOLS}), 1),
            Op::Freeze { tok: t, on } => call(OWNER, EX, if *on { "extend_frozenlist_tokens" } else { "remove_frozenlist_tokens" }, json!({"tokens": [tok(*t as usize).id]}), 1),
            Op::White { tok: t, on } => call(OWNER, EX, if *on { "extend_whitelisted_tokens" } else { "remove_whitelisted_tokens" }, json!({"tokens": [tok(*t as usize).id]}), 1),
            Op::Pause { on, by } => call(if *by == 0 { OWNER } else { GUARD }, EX, "change_state", json!({"state": if *on { "Paused" } else { "Running" }}), 1),
            Op::Referral { bps, kind } => match kind % 3 {
                0 => call(OWNER, EX, "update_referral", json!({"referral_id": REFER, "fee_bps": bps}), 1),
                1 => call(OWNER, EX, "remove_referral", json!({"referral_id": REFER}), 1),
                _ => call(OWNER, EX, "insert_referral", json!({"referral_id": REFER, "fee_bps": bps}), 1),
            },
            Op::Twap { pool, on } => call(OWNER, EX, if *on { "register_pool_twap_record" } else { "unregister_pool_twap_record" }, json!({"pool_id": *pool as usize % POOLS}), 1),
            Op::Echo { tok: t, on } => {
                let (list, key, id) = match t / 8 {
                    0 => ("client_echo_token_id", "token_ids", tok(*t as usize).id),
                    1 => ("client_echo_sender_id", "sender_ids", actor(*t)),
                    _ => ("secure_sender", "sender_ids", actor(*t)),
                };
                call(OWNER, EX, &format!("{}_{}_whitelist", if *on { "extend" } else { "remove" }, list), json!({ key: [id] }), 1)
            }
            Op::Limit { pool, tvl, kind } => {
                let i = *pool as usize % POOLS;
                let m = ["add_degen_pool_limit", "update_degen_pool_limit", "remove_pool_limit"][*kind as usize % 3];
                if *kind % 3 == 2 {
                    call(OWNER, EX, m, json!({ "pool_id": i }), 1)
                } else {
                    call(OWNER, EX, m, json!({"pool_id": i, "degen_pool_limit_info": {"tvl_limit": tvl.of(pow10(30), pow10(30)).to_string()}}), 1)
                }
            }
            Op::Fault(_) | Op::Step { .. } | Op::Drain | Op::Advance { .. } | Op::Rates { .. } => None,
        }
    }

    /// Executes an operation. `settle`: everything the transaction causes runs before returning.
    pub fn run(&mut self, op: &Op, settle: bool) -> OpRun {
        let mut r = OpRun { call: None, executed: vec![] };
        match op {
            Op::Fault(f) => self.fault(f),
            Op::Step { k, fail } => {
                // only calls to peers can fail for outside reasons
                let ready = self.w.ready();
                if !ready.is_empty() {
                    let i = ready[*k as usize % ready.len()];
                    let peer = self.w.pending[i].receiver != EX;
                    let own_callback = !peer && self.w.pending[i].predecessor == EX;
                    let f = if *fail && peer && !own_callback { Some("peer failed") } else { None };
                    let can = f.is_some() && self.w.pending[i].actions.iter().all(|a| matches!(a, crate::vm::Action::Call { method, .. } if method != "ft_resolve_transfer"));
                    r.executed.extend(self.w.step(*k as usize, if can { f } else { None }));
                }
            }
            Op::Drain => r.executed = self.w.drain(),
            Op::Advance { secs } => self.w.advance(*secs as u64),
            Op::Rates { rate, price, sync } => {
                self.set_rates(*rate, *price);
                if *sync {
                    let pend = std::mem::take(&mut self.w.pending);
                    self.sync_prices();
                    let mut now = std::mem::take(&mut self.w.pending);
                    self.w.pending = pend;
                    self.w.pending.append(&mut now);
                }
            }
            _ => {
                if let Some(c) = self.call_of(op) {
                    r.executed.push(self.w.tx(&c.signer, &c.to, &c.method, c.args.clone(), c.deposit));
                    if c.method == "on_burrow_liquidation" && r.executed[0].ok() {
                        // the lending market adjusts its own record
                        let key = (c.args["liquidation_account_id"].as_str().unwrap().to_string(), c.args["shadow_id"].as_str().unwrap().to_string());
                        if let Some(n) = self.w.model_mut(BURROW).shadow_mut().rec.get_mut(&key) {
                            *n = n.saturating_sub(num(&c.args["liquidate_share_amount"]));
                        }
                    }
                    if settle {
                        r.executed.extend(self.w.drain());
                    }
                    r.call = Some(c);
                }
            }
        }
        r
    }

    pub fn set_rates(&mut self, rate: u32, price: u32) {
        let rate = pow10(24) / 1000 * rate.max(1) as u128;
        self.w.model_mut("stnear.near").token_mut().rate = rate;
        self.w.model_mut("linear.near").token_mut().rate = pow10(24) + rate / 7;
        self.w.model_mut(ORACLE).oracle_mut().prices.insert(WRAP.into(), Some((price.max(1) as u128, 28)));
    }

    pub fn fault(&mut self, f: &Fault) {
        match f {
            Fault::TokenPaused(t, on) => self.w.model_mut(tok(*t as usize).id).token_mut().paused = *on,
            Fault::Blocked(t, a, on) => {
                let b = &mut self.w.model_mut(tok(*t as usize).id).token_mut().blocked;
                if *on {
                    b.insert(actor(*a).into());
                } else {
                    b.remove(actor(*a));
                }
            }
            Fault::FarmFails(on) => self.w.model_mut(FARM).shadow_mut().fail = *on,
            Fault::BurrowFails(on) => self.w.model_mut(BURROW).shadow_mut().fail = *on,
            Fault::Bot(m) => {
                self.w.model_mut(BOT).receiver_mut().mode = match m % 7 {
                    6 => Recv::Half,
                    0 => Recv::Unused(0),
                    1 => Recv::Unused(pow10(6) * *m as u128),
                    2 => Recv::Over,
                    3 => Recv::Garbage,
                    4 => Recv::Empty,
                    _ => Recv::Fail,
                }
            }
            Fault::OracleDown(on) => self.w.model_mut(ORACLE).oracle_mut().fail = *on,
        }
    }
}

/// operation groups, weighted per property
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum G {
    Deposit,
    Withdraw,
    Claim,
    Reg,
    Stor,
    StorUnreg,
    Add,
    AddStable,
    Remove,
    RemoveBy,
    Swap,
    SwapOut,
    Instant,
    Zap,
    MftPool,
    MftTok,
    MftReg,
    Shadow,
    Liquidate,
    DonateShare,
    DonateToken,
    FaultTok,
    FaultHost,
    FaultBot,
    FaultOracle,
    Step,
    Drain,
    Advance,
    Rates,
    Update,
    OwnerFees,
    Fees,
    Ramp,
    Freeze,
    White,
    Pause,
    Twap,
    Echo,
    Limit,
}

pub fn who() -> BoxedStrategy<u8> {
    prop_oneof![10 => 0u8..4, 1 => Just(4u8), 1 => Just(5u8), 1 => Just(6u8)].boxed()
}
pub fn path() -> BoxedStrategy<Path> {
    (0u8..8, prop::collection::vec(any::<u8>(), 1..4), prop_oneof![6 => Just(0u8), 1 => any::<u8>()], prop_oneof![28 => Just(0u8), 2 => 1u8..10, 1 => 10u8..14])
        .prop_map(|(tok, hops, split, bad)| Path { tok, hops, split, bad })
        .boxed()
}
pub fn good_path(max: usize) -> BoxedStrategy<Path> {
    (0u8..8, prop::collection::vec(any::<u8>(), 1..=max)).prop_map(|(tok, hops)| Path { tok, hops, split: 0, bad: 0 }).boxed()
}
fn simple_pool() -> BoxedStrategy<u8> {
    prop_oneof![8 => prop::sample::select(vec![0u8, 1, 2, 6]), 1 => 0u8..10].boxed()
}
fn stable_pool() -> BoxedStrategy<u8> {
    prop_oneof![8 => prop::sample::select(vec![3u8, 4, 5, 7, 8, 9]), 1 => 0u8..10].boxed()
}
fn a3() -> BoxedStrategy<[Amt; 3]> {
    [amt_or_zero(), amt_or_zero(), amt_or_zero()].boxed()
}
fn amt_or_zero() -> BoxedStrategy<Amt> {
    prop_oneof![3 => Just(Amt::Small(0)), 8 => (1u16..=65535).prop_map(Amt::Frac), 2 => amt()].boxed()
}

pub fn group(g: G) -> BoxedStrategy<Op> {
    match g {
        G::Deposit => (who(), 0u8..8, amt_ok()).prop_map(|(who, tok, a)| Op::Deposit { who, tok, a }).boxed(),
        G::Withdraw => (who(), 0u8..9, amt(), any::<bool>(), 0u8..3).prop_map(|(who, tok, a, unreg, skip)| Op::Withdraw { who, tok, a, unreg, skip }).boxed(),
        G::Claim => (who(), 0u8..9).prop_map(|(who, tok)| Op::Claim { who, tok }).boxed(),
        G::Reg => (who(), any::<u8>(), any::<bool>()).prop_map(|(who, mask, on)| Op::RegTokens { who, mask, on }).boxed(),
        G::Stor => prop_oneof![
            (who(), who(), any::<bool>(), 0u16..300).prop_map(|(who, to, only, milli)| Op::StorDeposit { who, to, only, milli }),
            (who(), amt()).prop_map(|(who, a)| Op::StorWithdraw { who, a }),
        ]
        .boxed(),
        G::StorUnreg => who().prop_map(|who| Op::StorUnreg { who }).boxed(),
        G::Add => (who(), simple_pool(), [amt_ok(), amt_ok()], any::<u8>()).prop_map(|(who, pool, a, min)| Op::Add { who, pool, a, min }).boxed(),
        G::AddStable => (who(), stable_pool(), a3(), any::<u8>()).prop_map(|(who, pool, a, min)| Op::AddStable { who, pool, a, min }).boxed(),
        G::Remove => (who(), 0u8..10, amt(), any::<u8>()).prop_map(|(who, pool, a, min)| Op::Remove { who, pool, a, min }).boxed(),
        G::RemoveBy => (who(), stable_pool(), a3(), any::<u8>()).prop_map(|(who, pool, a, max)| Op::RemoveBy { who, pool, a, max }).boxed(),
        G::Swap => (who(), path(), amt(), any::<bool>(), 0u8..8, prop::bool::weighted(0.8)).prop_map(|(who, path, a, refer, via, attach)| Op::Swap { who, path, a, refer, via, attach }).boxed(),
        G::SwapOut => (who(), path(), amt(), any::<bool>(), 0u8..8, prop::bool::weighted(0.8)).prop_map(|(who, path, a, refer, via, attach)| Op::SwapOut { who, path, a, refer, via, attach }).boxed(),
        G::Instant => (who(), path(), amt_ok(), any::<bool>(), prop_oneof![3 => Just(0u8), 2 => 1u8..7], prop::bool::weighted(0.15), 0u8..8, prop::bool::weighted(0.25))
            .prop_map(|(who, path, a, refer, to, echo, skip, by_out)| Op::Instant { who, path, a, refer, to: if echo && to != 6 { 0 } else { to }, echo, skip, by_out })
            .boxed(),
        G::Zap => (who(), path(), amt_ok(), prop::collection::vec(0u8..10, 1..3), prop::collection::vec(a3(), 2), any::<u8>())
            .prop_map(|(who, path, a, pools, adds, min)| Op::Zap { who, path, a, pools, adds, min })
            .boxed(),
        G::MftPool => (who(), who(), 0u8..10, amt(), 0u8..3).prop_map(|(who, to, pool, a, mode)| Op::Mft { who, to, pool, tok: None, a, mode }).boxed(),
        G::MftTok => (who(), who(), 0u8..8, amt(), 0u8..3).prop_map(|(who, to, t, a, mode)| Op::Mft { who, to, pool: 0, tok: Some(t), a, mode }).boxed(),
        G::MftReg => (who(), who(), 0u8..10, prop::bool::weighted(0.7)).prop_map(|(who, to, pool, on)| Op::MftReg { who, to, pool, on }).boxed(),
        G::Shadow => (who(), 0u8..10, 0u8..4, prop_oneof![1 => Just(None), 4 => amt().prop_map(Some)], prop::bool::weighted(0.05)).prop_map(|(who, pool, kind, a, poor)| Op::Shadow { who, pool, kind, a, poor }).boxed(),
        G::Liquidate => (who(), 0u8..4, 0u8..10, amt(), any::<u8>()).prop_map(|(by, of, pool, a, min)| Op::Liquidate { by, of, pool, a, min }).boxed(),
        G::DonateShare => (who(), 0u8..10, prop_oneof![1 => Just(None), 3 => amt().prop_map(Some)], 0u8..3).prop_map(|(who, pool, a, unreg)| Op::DonateShare { who, pool, a, unreg }).boxed(),
        G::DonateToken => (who(), 0u8..8, prop_oneof![1 => Just(None), 3 => amt().prop_map(Some)], 0u8..3).prop_map(|(who, tok, a, unreg)| Op::DonateToken { who, tok, a, unreg }).boxed(),
        G::FaultTok => prop_oneof![
            (0u8..8, prop::bool::weighted(0.6)).prop_map(|(t, on)| Op::Fault(Fault::TokenPaused(t, on))),
            (0u8..8, 0u8..7, prop::bool::weighted(0.6)).prop_map(|(t, a, on)| Op::Fault(Fault::Blocked(t, a, on))),
        ]
        .boxed(),
        G::FaultHost => prop_oneof![any::<bool>().prop_map(|b| Op::Fault(Fault::FarmFails(b))), any::<bool>().prop_map(|b| Op::Fault(Fault::BurrowFails(b)))].boxed(),
        G::FaultBot => any::<u8>().prop_map(|m| Op::Fault(Fault::Bot(m))).boxed(),
        G::FaultOracle => any::<bool>().prop_map(|m| Op::Fault(Fault::OracleDown(m))).boxed(),
        G::Step => (any::<u8>(), prop::bool::weighted(0.2)).prop_map(|(k, fail)| Op::Step { k, fail }).boxed(),
        G::Drain => Just(Op::Drain).boxed(),
        G::Advance => prop_oneof![0u32..600, 600u32..5000, 80_000u32..200_000].prop_map(|secs| Op::Advance { secs }).boxed(),
        G::Rates => (900u32..1400, 10_000u32..200_000, prop::bool::weighted(0.7)).prop_map(|(rate, price, sync)| Op::Rates { rate, price, sync }).boxed(),
        G::Update => prop_oneof![(0u8..8).prop_map(|tok| Op::UpdateRate { tok }), (0u8..16).prop_map(|mask| Op::UpdateDegen { mask })].boxed(),
        G::OwnerFees => prop_oneof![
            (0u8..8, amt(), 0u8..3).prop_map(|(tok, a, skip)| Op::OwnerWithdraw { tok, a, skip }),
            (0u8..10, amt()).prop_map(|(pool, a)| Op::RemoveFees { pool, a }),
        ]
        .boxed(),
        G::Fees => prop_oneof![
            (0u16..8500).prop_map(|bps| Op::AdminFee { bps }),
            (0u8..10, 0u16..10_100).prop_map(|(pool, fee)| Op::TotalFee { pool, fee }),
            (0u16..10_100, 0u8..3).prop_map(|(bps, kind)| Op::Referral { bps, kind }),
        ]
        .boxed(),
        G::Ramp => prop_oneof![
            3 => (stable_pool(), 10u16..1000, 0u8..5).prop_map(|(pool, amp, days)| Op::Ramp { pool, amp, days }),
            1 => stable_pool().prop_map(|pool| Op::StopRamp { pool }),
        ]
        .boxed(),
        G::Freeze => (0u8..8, any::<bool>()).prop_map(|(tok, on)| Op::Freeze { tok, on }).boxed(),
        G::White => (0u8..8, any::<bool>()).prop_map(|(tok, on)| Op::White { tok, on }).boxed(),
        G::Pause => (prop::bool::weighted(0.15), 0u8..2).prop_map(|(on, by)| Op::Pause { on, by }).boxed(),
        G::Twap => (0u8..10, prop::bool::weighted(0.8)).prop_map(|(pool, on)| Op::Twap { pool, on }).boxed(),
        G::Echo => (0u8..24, any::<bool>()).prop_map(|(tok, on)| Op::Echo { tok, on }).boxed(),
        G::Limit => (prop::sample::select(vec![5u8, 9, 0]), amt(), 0u8..3).prop_map(|(pool, tvl, kind)| Op::Limit { pool, tvl, kind }).boxed(),
    }
}
pub fn mix(w: &[(u32, G)]) -> BoxedStrategy<Op> {
    prop::strategy::Union::new_weighted(w.iter().map(|(n, g)| (*n, group(*g))).collect()).boxed()
}
pub fn setup() -> BoxedStrategy<Setup> {
    (
        prop_oneof![3 => Just(2000u32), 1 => Just(0u32), 2 => 0u32..=8000],
        prop::collection::vec(prop_oneof![4 => prop::sample::select(vec![0u32, 1, 5, 25, 30, 100, 200]), 1 => 0u32..9999], POOLS),
        prop_oneof![Just(100u64), 1u64..2000, Just(10000u64)],
        prop::collection::vec(prop_oneof![1 => Just(0u16), 9 => 1u16..200], POOLS),
        (900u32..1500, 5_000u32..300_000, prop_oneof![2 => Just(1000u32), 2 => 1u32..10_000]),
    )
        .prop_map(|(admin_fee, fees, amp, liq, (rate, price, referral))| Setup { admin_fee, fees, amp, liq, rate, price, referral })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub setup: Setup,
    pub ops: Vec<Op>,
}
/// an account takes everything out, gives up its token registrations and leaves
pub fn exit_ops(who: u8, n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = (0..n).map(|_| Op::Withdraw { who, tok: 0, a: Amt::All, unreg: true, skip: 0 }).collect();
    v.push(Op::StorUnreg { who });
    v
}
pub fn hist(w: &[(u32, G)], len: std::ops::Range<usize>) -> BoxedStrategy<Hist> {
    (setup(), prop::collection::vec(mix(w), len)).prop_map(|(setup, ops)| Hist { setup, ops }).boxed()
}
