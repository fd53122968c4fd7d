//! C03, C04, C05, C19, C24: what trades and liquidity operations do to pools, against an exact model.
use super::*;
use crate::ensure;
use crate::model::*;
use num_bigint::BigUint as B;
use serde_json::json;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Value,
    Simple,
    Curve,
    Fees,
    Volume,
}
pub struct W {
    focus: Focus,
    m: Option<M>,
    fresh: u64,
    good: u32,
    refused: u32,
    first: Vec<PoolS>,
}
impl W {
    pub fn new(focus: Focus) -> W {
        W { focus, m: None, fresh: 0, good: 0, refused: 0, first: vec![] }
    }
}

/// the exact integer part of the curve's invariant
pub fn true_d(cv: &Curve, c: &[u128]) -> Option<B> {
    if c.iter().any(|x| *x == 0) {
        return None;
    }
    let d = cv.d(c).ok()?;
    // close to the solver's answer, by doubling steps and then halving
    let (mut lo, mut hi) = (d.clone(), &d + b(1));
    let mut w = b(1);
    while lo > b(0) && !cv.reaches(c, &lo) {
        hi = lo.clone();
        lo = if lo > w { &lo - &w } else { b(0) };
        w = &w * b(2);
    }
    w = b(1);
    while cv.reaches(c, &hi) {
        lo = hi.clone();
        hi = &hi + &w;
        w = &w * b(2);
        if w.bits() > 200 {
            return None;
        }
    }
    while &hi - &lo > b(1) {
        let m = (&lo + &hi) / b(2);
        if cv.reaches(c, &m) { lo = m } else { hi = m }
    }
    let d = lo;
    Some(d)
}

impl Watch for W {
    fn spec(&self) -> SnapSpec {
        SnapSpec { dep: true, lost: false, pools: true, shares: true, locks: self.focus != Focus::Volume, stor: false }
    }
    fn settle(&self) -> bool {
        true
    }
    fn start(&mut self, e: &mut Ex, s: &Snap) -> Res {
        self.fresh = e.w.now;
        self.first = s.pools.clone();
        Ok(())
    }
    fn before(&mut self, e: &Ex, _op: &Op, s: &Snap) -> Res {
        self.m = Some(M::new(e, &s.pools));
        Ok(())
    }
    fn step(&mut self, e: &Ex, op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res {
        if let Op::Rates { sync: true, .. } = op {
            self.fresh = e.w.now;
        }
        let mut m = self.m.take().unwrap();
        // the receipt that acts on the pools
        let main = run.executed.iter().find(|x| x.receiver == EX && x.predecessor != EX);
        let done = main.map_or(false, |x| x.ok());
        match self.focus {
            Focus::Value => self.value(op, a, b, done, st)?,
            _ => self.exact(e, op, run, &mut m, a, b, done, st)?,
        }
        Ok(())
    }
    fn finish(&mut self, e: &mut Ex, s: &Snap, st: &mut Stats) -> Res {
        if self.focus == Focus::Value {
            round_trips(e, s, st)?;
        }
        if self.good >= 2 {
            st.hit();
        }
        if self.refused > 0 {
            st.label("history with a refused operation");
        }
        Ok(())
    }
}

impl W {
    /// value per share of constant-product pools, without any model of the formulas
    fn value(&mut self, op: &Op, a: &Snap, b: &Snap, done: bool, st: &mut Stats) -> Res {
        let liquidity = matches!(op, Op::Add { .. } | Op::Remove { .. } | Op::RemoveFees { .. } | Op::Liquidate { .. });
        for (i, (p, q)) in a.pools.iter().zip(&b.pools).enumerate() {
            if !p.simple() || p == q {
                continue;
            }
            if p.supply == 0 || q.supply == 0 {
                // first or last liquidity
                ensure!(p.supply > 0 || q.supply > 0 || q.amounts == p.amounts, "value", "pool {} without shares changed by {}", i, op_name(op));
                continue;
            }
            // the root is rounded down; for trades alone that makes no difference
            let one = if liquidity || matches!(op, Op::Zap { .. }) { 1u32 } else { 0 };
            let l = (q.isqrt_k() + B::from(one)) * B::from(p.supply);
            let r = p.isqrt_k() * B::from(q.supply);
            ensure!(l >= r, "value", "pool {}: the value of a share falls by {}: reserves {:?} supply {} become {:?} and {}", i, op_name(op), p.amounts, p.supply, q.amounts, q.supply);
            if liquidity {
                for k in 0..p.tokens.len() {
                    ensure!(B::from(q.amounts[k]) * B::from(p.supply) >= B::from(p.amounts[k]) * B::from(q.supply), "contents", "pool {}: {} per share falls by {}: {} / {} -> {} / {}", i, p.tokens[k], op_name(op), p.amounts[k], p.supply, q.amounts[k], q.supply);
                }
                st.label("liquidity operation on a constant-product pool");
            } else {
                st.label("trade in a constant-product pool");
            }
            if done {
                self.good += 1;
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn exact(&mut self, e: &Ex, op: &Op, run: &OpRun, m: &mut M, a: &Snap, b: &Snap, done: bool, st: &mut Stats) -> Res {
        let vols0 = m.vols.clone();
        let expected = run.call.as_ref().and_then(|c| m.apply(c, a));
        let (call, r) = match (&run.call, expected) {
            (Some(c), Some(r)) => (c, r),
            _ => {
                // nothing else touches reserves or shares
                if !matches!(op, Op::Liquidate { .. }) {
                    for (i, (p, q)) in a.pools.iter().zip(&b.pools).enumerate() {
                        ensure!(p.amounts == q.amounts && p.c_amounts == q.c_amounts && p.supply == q.supply, "unrelated", "pool {} changed by {}", i, op_name(op));
                    }
                    if self.focus == Focus::Volume {
                        let v = volumes(e, b.pools.len());
                        ensure!(v == m.vols, "volume", "{} changed the volumes: {:?} -> {:?}", op_name(op), m.vols, v);
                    }
                }
                return Ok(());
            }
        };
        let touched = M::touched(call).unwrap();
        let curve = touched.iter().any(|i| a.pools.get(*i).map_or(false, |p| !p.simple()));
        let mine = match self.focus {
            Focus::Simple => !curve,
            Focus::Curve => curve,
            _ => true,
        };
        if !mine {
            return Ok(());
        }
        let o = match r {
            Err(Fail::Range) => {
                st.label("outside the model's range");
                // whatever happens, it happens to nobody else
                return Ok(());
            }
            Err(Fail::Must(why)) => {
                ensure!(!done, "accepted", "{} was accepted but cannot be valid ({}): {}", op_name(op), why, show(run));
                for (p, q) in a.pools.iter().zip(&b.pools) {
                    ensure!(p.amounts == q.amounts && p.c_amounts == q.c_amounts && p.supply == q.supply, "refused-effect", "refused {} changed a pool: {}", op_name(op), show(run));
                }
                ensure!(a.dep == b.dep && a.shares == b.shares, "refused-effect", "refused {} changed balances: {}", op_name(op), show(run));
                if self.focus == Focus::Volume {
                    ensure!(volumes(e, b.pools.len()) == vols0, "volume", "refused {} changed the volumes", op_name(op));
                }
                self.refused += 1;
                st.label(&format!("refused: {}", why));
                return Ok(());
            }
            Ok(o) => o,
        };
        let echo = matches!(op, Op::Instant { echo: true, .. });
        if !done {
            // rates and prices may be out of date
            let dated = touched.iter().any(|i| a.pools[*i].rated() || a.pools[*i].degen());
            let stale = dated && e.w.now - self.fresh > 3_000_000_000_000;
            let known = USERS.contains(&&call.signer[..]) || call.method == "remove_exchange_fee_liquidity";
            let first = run.executed.first().map_or(true, |x| x.receiver == EX || x.ok());
            let nothing = o.shares.iter().any(|x| !x.2 && x.3 == 0);
            let limited = touched.iter().any(|i| a.pools[*i].degen() && !e.v("get_pool_limit_by_pool_id", json!({ "pool_id": i })).is_null());
            ensure!(stale || echo || limited || nothing || !known || !first, "refused", "{} by {} is refused though it is valid, expected {:?}: {}", op_name(op), call.signer, o, show(run));
            st.label("refused for other reasons");
            return Ok(());
        }
        self.good += 1;
        for i in &touched {
            st.label(&format!("{} in {}", op_name(op), a.pools[*i].kind));
        }
        match self.focus {
            Focus::Simple | Focus::Curve => {
                for (i, (p, q)) in m.pools.iter().zip(&b.pools).enumerate() {
                    ensure!(p.amounts == q.amounts && p.c_amounts == q.c_amounts, "reserves", "pool {} ({}) after {}: reserves {:?} {:?}, expected {:?} {:?}; before {:?}; {}", i, q.kind, op_name(op), q.amounts, q.c_amounts, p.amounts, p.c_amounts, a.pools[i], show(run));
                    ensure!(p.supply == q.supply, "supply", "pool {} ({}) after {}: {} shares, expected {}; before {:?}; {}", i, q.kind, op_name(op), q.supply, p.supply, a.pools[i], show(run));
                }
                for h in HOLDERS {
                    let want = match &o.deposits {
                        Some((w, p)) if w == h => p.clone(),
                        _ => a.dep.get(h).cloned().unwrap_or_default(),
                    };
                    let got = b.dep.get(h).cloned().unwrap_or_default();
                    for t in TOKENS {
                        let (w, g) = (want.get(t.id).copied().unwrap_or(0), got.get(t.id).copied().unwrap_or(0));
                        // what an echoed transfer's receiver does not keep is credited
                        let back = if echo && call.signer == *h { o.sent.as_ref().and_then(|m| m.get(t.id)).copied().unwrap_or(0) } else { 0 };
                        ensure!(w <= g && g - w <= back, "balance", "{}'s deposit of {} after {} by {}: {}, expected {} (before {}); {}", h, t.id, op_name(op), call.signer, g, w, a.d(h, t.id), show(run));
                    }
                    for i in 0..b.pools.len() {
                        if h == EX || h == REFER {
                            continue;
                        }
                        let mut want = a.sh(h, i);
                        for (w, p, plus, n) in &o.shares {
                            if w == h && *p == i {
                                want = if *plus { want + n } else { want - n };
                            }
                        }
                        ensure!(want == b.sh(h, i), "shares", "{}'s shares of pool {} after {}: {}, expected {}; {}", h, i, op_name(op), b.sh(h, i), want, show(run));
                    }
                }
                if let (Some(x), Some(main)) = (o.answer, run.executed.first()) {
                    let v = main.json();
                    let v = if v.is_object() { v["Amount"].clone() } else { v };
                    if v.is_string() {
                        ensure!(num(&v) == x, "answer", "{} answers {}, expected {}", op_name(op), v, x);
                    }
                }
                if self.focus == Focus::Curve {
                    self.curve_value(op, run, a, b, &touched, st)?;
                }
            }
            Focus::Fees => {
                for i in 0..b.pools.len() {
                    let mut own = a.sh(EX, i);
                    for (w, p, plus, n) in &o.shares {
                        if w == EX && *p == i && !plus {
                            own -= n;
                        }
                    }
                    ensure!(own + m.ex[i] == b.sh(EX, i), "exchange-part", "{} gives the exchange {} shares of pool {} ({}), expected {}; admin fee {} referral {:?} registered {} pool {:?}; {}", op_name(op), b.sh(EX, i) as i128 - own as i128, i, b.pools[i].kind, m.ex[i], m.admin, m.bps, m.reg[i], a.pools[i], show(run));
                    ensure!(a.sh(REFER, i) + m.rf[i] == b.sh(REFER, i), "referrer-part", "{} gives the referrer {} shares of pool {} ({}), expected {}; admin fee {} referral {:?} registered {} pool {:?}; {}", op_name(op), b.sh(REFER, i) as i128 - a.sh(REFER, i) as i128, i, b.pools[i].kind, m.rf[i], m.admin, m.bps, m.reg[i], a.pools[i], show(run));
                    if m.ex[i] > 0 {
                        st.label(&format!("fee shares to the exchange, {}", b.pools[i].kind));
                    }
                    if m.rf[i] > 0 {
                        st.label(&format!("fee shares to the referrer, {}", b.pools[i].kind));
                    }
                }
            }
            Focus::Volume => {
                let v = volumes(e, b.pools.len());
                ensure!(v == m.vols, "volume", "volumes after {}: {:?}, expected {:?}; {}", op_name(op), v, m.vols, show(run));
                if m.swaps > 0 {
                    st.label(&format!("{} trade(s) counted", m.swaps));
                }
                for i in &touched {
                    let w = e.v("get_pool_volumes", json!({ "pool_id": i }));
                    let w: Vec<(u128, u128)> = w.as_array().unwrap().iter().map(|x| (num(&x["input"]), num(&x["output"]))).collect();
                    let want: Vec<(u128, u128)> = v[*i].iter().map(|(x, y)| (big_u128(x).unwrap_or(u128::MAX), big_u128(y).unwrap_or(u128::MAX))).collect();
                    ensure!(w == want, "volume-view", "get_pool_volumes of pool {}: {:?}, expected {:?}", i, w, want);
                }
            }
            Focus::Value => {}
        }
        Ok(())
    }

    /// the value of a share does not fall, measured by the exact polynomial of the curve
    fn curve_value(&mut self, op: &Op, run: &OpRun, a: &Snap, b: &Snap, touched: &[usize], st: &mut Stats) -> Res {
        for i in touched {
            let (p, mut q) = (&a.pools[*i], b.pools[*i].clone());
            if p.simple() || p.supply == 0 || q.supply == 0 {
                continue;
            }
            // at the rates and prices of the moment of the operation
            q.rates = p.rates.clone();
            let (Ok(s0), Ok(s1)) = (p.seen(&p.c_amounts), q.seen(&q.c_amounts)) else { continue };
            let (Some(d0), Some(d1)) = (true_d(&p.curve(), &s0), true_d(&q.curve(), &s1)) else { continue };
            // the documented iteration is not exact where one coin is nearly absent
            let off = |c: &Curve, s: &[u128], d: &B| {
                let got = c.d(s).unwrap();
                if got > *d { got - d } else { d - got }
            };
            let (o0, o1) = (off(&p.curve(), &s0, &d0), off(&q.curve(), &s1, &d1));
            let far = &o0 + &o1 > b_(100);
            st.label(if o0 <= b_(1) { "solver exact" } else if far { "solver far off" } else { "solver off by more than 1" });
            let l = &d1 * crate::model::b(p.supply);
            let r = &d0 * crate::model::b(q.supply);
            if l < r {
                // rounding: a few units of the invariant, or of shares
                let gap = &r - &l;
                // a unit of coin i is worth at most D / x_i of the invariant, as D is homogeneous
                let again = touched.iter().filter(|t| *t == i).count() > 1;
                let mut coin = crate::model::b(1);
                for k in 0..s0.len() {
                    let least = if again { p.floor() } else { s0[k].min(s1[k]).max(1) };
                    let rate = p.rates.get(k).map_or(1, |r| r / pow10(24) + 1);
                    coin += (&d0 / crate::model::b(least) + crate::model::b(1)) * crate::model::b(rate);
                }
                let unit = crate::model::b(p.supply.max(q.supply)) * crate::model::b(SLACK) * coin + &d0 * crate::model::b(SLACK) + if far { (o0 + o1) * crate::model::b(p.supply.max(q.supply) * 2) } else { b_(0) };
                ensure!(gap <= unit, "share-value", "pool {} ({}): the value of a share falls by {}: D {} S {} -> D {} S {}; gap {} allowed {}; {:?}; {}", i, p.kind, op_name(op), d0, p.supply, d1, q.supply, gap, unit, p, show(run));
                st.label("share value equal up to rounding");
            } else {
                st.label("share value kept");
            }
        }
        Ok(())
    }
}
const SLACK: u128 = 8;
fn b_(x: u128) -> B {
    crate::model::b(x)
}

/// nobody gains by going in and straight out again
fn round_trips(e: &Ex, s: &Snap, st: &mut Stats) -> Res {
    for (i, p) in s.pools.iter().enumerate() {
        if !p.simple() || p.supply == 0 || p.amounts.iter().any(|x| *x == 0) {
            continue;
        }
        let me = USERS[i % 3];
        for k in 0..2u32 {
            let mut f = e.clone();
            let am: Vec<u128> = p.tokens.iter().enumerate().map(|(j, t)| (p.amounts[j] / [7, 1000][k as usize] + (13 * i + j) as u128 + 2).min(s.d(me, t))).collect();
            let r = f.w.tx(me, EX, "add_liquidity", json!({"pool_id": i, "amounts": us(&am)}), crate::chain::NEAR / 100);
            if !r.ok() {
                continue;
            }
            let n = num(&r.json());
            let r = f.w.tx(me, EX, "remove_liquidity", json!({"pool_id": i, "shares": n.to_string(), "min_amounts": us(&[0, 0])}), 1);
            ensure!(r.ok(), "round-trip", "shares just minted cannot be removed: {:?}", r.result);
            let d = f.deposits(me);
            for t in &p.tokens {
                ensure!(d.get(t).copied().unwrap_or(0) <= s.d(me, t), "round-trip-liquidity", "adding and removing {:?} in pool {} {:?} gains {}", am, i, p, t);
            }
            st.label("liquidity round trip");
        }
        for (x, y) in [(0usize, 1usize), (1, 0)] {
            for k in 0..3 {
                let mut f = e.clone();
                let n = (p.amounts[x] / [3, 500, u128::MAX][k]).saturating_add([5, 1, 3][k]).min(s.d(me, &p.tokens[x]));
                let acts = json!([{"pool_id": i, "token_in": p.tokens[x], "token_out": p.tokens[y], "amount_in": n.to_string(), "min_amount_out": "0"}, {"pool_id": i, "token_in": p.tokens[y], "token_out": p.tokens[x], "min_amount_out": "0"}]);
                let r = f.w.tx(me, EX, "swap", json!({ "actions": acts }), 1);
                if r.ok() {
                    ensure!(num(&r.json()) <= n, "round-trip-swap", "swapping {} {} there and back in pool {} {:?} gives {}", n, p.tokens[x], i, p, num(&r.json()));
                    st.label("swap round trip");
                }
                // and by output
                let mut f = e.clone();
                let want = p.amounts[y] / [3, 500, u128::MAX][k] + 1;
                let acts = json!([{"pool_id": i, "token_in": p.tokens[x], "token_out": p.tokens[y], "amount_out": want.to_string()}]);
                let r = f.w.tx(me, EX, "swap_by_output", json!({ "actions": acts }), 1);
                if r.ok() {
                    let paid = num(&r.json());
                    let acts = json!([{"pool_id": i, "token_in": p.tokens[y], "token_out": p.tokens[x], "amount_in": want.to_string(), "min_amount_out": "0"}]);
                    let r = f.w.tx(me, EX, "swap", json!({ "actions": acts }), 1);
                    if r.ok() {
                        ensure!(num(&r.json()) <= paid, "round-trip-output", "buying {} {} for {} and selling it gives {} in pool {} {:?}", want, p.tokens[y], paid, num(&r.json()), i, p);
                        st.label("by-output round trip");
                    }
                }
            }
        }
    }
    Ok(())
}

const SIMPLE: &[(u32, G)] = &[
    (2, G::Deposit), (8, G::Add), (7, G::Remove), (14, G::Swap), (9, G::SwapOut), (6, G::Instant), (2, G::Zap), (2, G::Fees), (1, G::OwnerFees), (1, G::Shadow), (1, G::Withdraw),
];
const CURVE: &[(u32, G)] = &[
    (1, G::Deposit), (12, G::AddStable), (6, G::Remove), (9, G::RemoveBy), (14, G::Swap), (4, G::Instant), (3, G::Zap), (2, G::Fees), (2, G::OwnerFees), (4, G::Rates), (1, G::Shadow),
];
const ALL: &[(u32, G)] = &[
    (1, G::Deposit), (4, G::Add), (8, G::AddStable), (4, G::Remove), (6, G::RemoveBy), (16, G::Swap), (6, G::SwapOut), (7, G::Instant), (4, G::Zap), (5, G::Fees), (2, G::OwnerFees), (3, G::Rates), (1, G::Withdraw), (1, G::DonateShare), (1, G::MftPool), (2, G::MftReg),
];
/// simple-pool paths only
fn on_simple(h: BoxedStrategy<Hist>) -> BoxedStrategy<Hist> {
    use proptest::prelude::*;
    h.prop_map(|mut h| {
        for o in h.ops.iter_mut() {
            match o {
                Op::Remove { pool, .. } | Op::RemoveFees { pool, .. } => *pool = [0, 1, 2, 6][*pool as usize % 4],
                _ => {}
            }
        }
        h
    })
    .boxed()
}
fn on_curves(h: BoxedStrategy<Hist>) -> BoxedStrategy<Hist> {
    use proptest::prelude::*;
    h.prop_map(|mut h| {
        for o in h.ops.iter_mut() {
            match o {
                Op::Remove { pool, .. } | Op::RemoveFees { pool, .. } => *pool = [3, 4, 5, 7, 8, 9][*pool as usize % 6],
                _ => {}
            }
        }
        h
    })
    .boxed()
}
use proptest::strategy::BoxedStrategy;

/// sometimes everybody then takes everything out of one pool, and it is used again
fn drained(h: BoxedStrategy<Hist>) -> BoxedStrategy<Hist> {
    use proptest::prelude::*;
    (h, prop::option::weighted(0.25, (0u8..10, 0u8..7, any::<bool>())))
        .prop_map(|(mut h, d)| {
            if let Some((pool, first, fees)) = d {
                let all = |i: u8| Op::Remove { who: (first + i) % 7, pool, a: Amt::All, min: i % 3 };
                if fees {
                    h.ops.push(Op::RemoveFees { pool, a: Amt::All });
                }
                h.ops.extend((0..7).map(all));
                if !fees {
                    h.ops.push(Op::RemoveFees { pool, a: Amt::All });
                }
                let (who, a) = (first % 4, Amt::Frac(20_000));
                h.ops.push(if pool < 3 || pool == 6 { Op::Add { who, pool, a: [a.clone(), a.clone()], min: 0 } } else { Op::AddStable { who, pool, a: [a.clone(), a.clone(), a], min: 0 } });
                h.ops.extend([all(3), all(first)]);
            }
            h
        })
        .boxed()
}

fn go(f: Focus, h: &Hist, st: &mut Stats) -> Res {
    drive(h, &mut W::new(f), st).map(|_| ())
}

pub fn defs() -> Vec<Def> {
    let two = "a generated history of trades and liquidity operations; non-trivial: at least two of them that this property is about succeeded";
    vec![
        def("C03", two, 1000, 60_000, || drained(on_simple(hist(SIMPLE, 4..25))), |h: &Hist, st| go(Focus::Value, h, st)),
        def("C04", two, 1600, 100_000, || drained(on_simple(hist(SIMPLE, 4..25))), |h: &Hist, st| go(Focus::Simple, h, st)),
        def("C05", two, 1600, 100_000, || drained(on_curves(hist(CURVE, 4..20))), |h: &Hist, st| go(Focus::Curve, h, st)),
        def("C19", two, 1600, 100_000, || drained(hist(ALL, 4..20)), |h: &Hist, st| go(Focus::Fees, h, st)),
        def("C24", two, 1200, 100_000, || drained(hist(ALL, 4..20)), |h: &Hist, st| go(Focus::Volume, h, st)),
    ]
}
