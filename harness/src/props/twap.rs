//! C22: value limits of degen pools. C23: time-weighted contents of a share.
use super::forks::{state, STATE};
use super::gates::*;
use super::*;
use crate::ensure;
use crate::model::M;
use num_bigint::BigUint as B;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lim {
    h: Hist,
    /// limits relative to the value that the operation reaches
    at: Vec<L>,
    op: Op,
    by: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum L {
    Off(i8),
    Frac(u16),
    Zero,
    Max,
}
/// exact value of a degen pool in whole units of account
fn value(p: &PoolS) -> u128 {
    let mut s = B::from(0u8);
    let e = B::from(10u8).pow(24);
    for (i, a) in p.amounts.iter().enumerate() {
        s += B::from(p.to_c(i, *a)) * B::from(p.rates[i]) / &e / &e;
    }
    big_u128(&s).unwrap_or(u128::MAX)
}
fn limits(e: &Ex) -> BTreeMap<u64, u128> {
    e.v("get_pool_limit_paged", json!({})).as_object().unwrap().iter().map(|(k, v)| (k.parse().unwrap(), num(&v["DegenPoolLimit"]["Current"]["tvl_limit"]))).collect()
}
fn set(e: &mut Ex, p: u64, l: Option<u128>, by: u8) {
    let has = limits(e).get(&p).is_some();
    match l {
        None if has => {
            e.must(OWNER, "remove_pool_limit", json!({ "pool_id": p }), 1);
        }
        None => {}
        Some(x) => {
            let who = if has || by & 1 == 0 { OWNER } else { GUARD };
            e.must(who, if has { "update_degen_pool_limit" } else { "add_degen_pool_limit" }, json!({"pool_id": p, "degen_pool_limit_info": {"tvl_limit": x.to_string()}}), 1);
        }
    }
}
/// pools the call adds liquidity to
fn adds(c: &Call) -> Vec<u64> {
    match &c.method[..] {
        "add_stable_liquidity" | "add_liquidity" => vec![num(&c.args["pool_id"]) as u64],
        "ft_transfer_call" => {
            let m: serde_json::Value = serde_json::from_str(c.args["msg"].as_str().unwrap_or("")).unwrap_or(json!(null));
            m["add_liquidity_infos"].as_array().into_iter().flatten().map(|x| num(&x["pool_id"]) as u64).collect()
        }
        _ => vec![],
    }
}
fn limit(c: &Lim, st: &mut Stats) -> Res {
    let mut e = state(&c.h);
    e.w.drain();
    e.sync_prices();
    let call = match e.call_of(&c.op) {
        Some(x) => x,
        None => return Ok(()),
    };
    // without limits
    let mut f = e.clone();
    for p in [5, 9] {
        set(&mut f, p, None, 0);
    }
    let free = f.clone();
    let a = full(&f);
    let (would, _) = go(&mut f, &call);
    let b = full(&f);
    let pools = f.pools();
    // what each pool is worth afterwards, by the view and exactly
    for p in [5usize, 9] {
        if let Ok(v) = f.tv("get_degen_pool_tvl", json!({ "pool_id": p })) {
            ensure!(num(&v) == value(&pools[p]), "value", "pool {} with {:?} at prices {:?} is worth {} but reported as {}", p, pools[p].amounts, pools[p].rates, value(&pools[p]), v);
        }
    }
    for l in &c.at {
        for p in [5u64, 9] {
            let v = value(&pools[p as usize]);
            let x = match l {
                L::Off(d) => (v as i128 + *d as i128).max(0) as u128,
                L::Frac(f) => mul_div(v, *f as u128, 30_000),
                L::Zero => 0,
                L::Max => u128::MAX,
            };
            let mut g = free.clone();
            set(&mut g, p, Some(x), c.by);
            let want = limits(&g);
            ensure!(want == BTreeMap::from([(p, x)]), "limit-set", "limit {} of pool {} set, but {:?}", x, p, want);
            let (ok, r) = go(&mut g, &call);
            let y = full(&g);
            let run = OpRun { call: None, executed: r };
            ensure!(limits(&g) == want, "limit-changed", "{:?} changes the limits {:?} to {:?}", call, want, limits(&g));
            let over = adds(&call).contains(&p) && v > x;
            if would && over {
                ensure!(!ok, "limit-exceeded", "{} brings pool {} to {} above its limit {}: {:?}; {}", op_name(&c.op), p, v, x, call, show(&run));
                let mut a2 = full(&{
                    let mut z = free.clone();
                    set(&mut z, p, Some(x), c.by);
                    z
                });
                a2.seen.s.pools = a.seen.s.pools.clone();
                ensure!(unchanged(&a2, &y, &call), "refused-with-effect", "{} is refused for the limit {} of pool {}, but {}; {}", op_name(&c.op), x, p, fdiff(&a2, &y), show(&run));
                st.label(&format!("{} refused for the limit", op_name(&c.op)));
                st.hit();
            } else {
                let mut b2 = Full { seen: super::forks::Seen { s: b.seen.s.clone(), ft: b.seen.ft.clone(), vols: b.seen.vols.clone() }, near: y.near.clone(), hosts: b.hosts.clone() };
                b2.near = y.near.clone();
                ensure!(ok == would && y == b2, "limit-in-the-way", "{} with limit {} of pool {} (value {}) differs from without: {} and {}: {}; {:?} {}", op_name(&c.op), x, p, v, would, ok, fdiff(&b2, &y), call, show(&run));
                if ok && M::touched(&call).map_or(false, |t| t.contains(&(p as usize))) {
                    st.label(&format!("{} {}", op_name(&c.op), if v > x { "above the limit" } else if v == x { "up to the limit" } else { "within the limit" }));
                    if v >= x {
                        st.hit();
                    }
                }
            }
        }
    }
    // only degen pools have one
    for p in [0, 3, 4] {
        let r = e.w.tx(OWNER, EX, "add_degen_pool_limit", json!({"pool_id": p, "degen_pool_limit_info": {"tvl_limit": "5"}}), 1);
        ensure!(!r.ok(), "limit-kind", "pool {} gets a value limit", p);
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum T {
    Op(Op),
    Reg { pool: u8, on: bool, by: u8 },
    Interval(u32),
    Wait(u64),
    Sync { pool: u8, by: u8 },
    Burst { pool: u8, n: u8, ns: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hours {
    setup: Setup,
    ts: Vec<T>,
}
/// the integral of a pool's contents per share since registration
#[derive(Clone, Debug)]
struct Int {
    /// floor of the last accounted instant, in seconds
    at: u64,
    sum: Vec<B>,
    /// contents per share held since then; None: too few shares for a unit
    held: Option<Vec<u128>>,
    /// nothing can be said since there were too few shares
    lost: bool,
    /// instants of updates
    updated: u64,
    cum: Vec<B>,
    records: Vec<(u64, Vec<B>)>,
}
fn unit(e: &Ex, p: usize) -> Option<Vec<u128>> {
    let x = e.pool(p);
    let dec = if x.stable() { 18 } else { 24 };
    let one = pow10(dec);
    if x.supply <= one {
        return None;
    }
    // proportional, rounded down, on the amounts the pool computes with
    Some((0..x.tokens.len()).map(|i| if x.simple() { mul_div(x.amounts[i], one, x.supply) } else { x.from_c(i, mul_div(x.c_amounts[i], one, x.supply)) }).collect())
}
struct Info {
    last: u64,
    cum: Vec<B>,
    records: Vec<(u64, Vec<B>)>,
}
fn bigs(v: &serde_json::Value) -> Vec<B> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect()
}
fn info(e: &Ex, p: usize) -> Option<Info> {
    let v = e.v("get_pool_twap_info_view", json!({ "pool_id": p }));
    if v.is_null() {
        return None;
    }
    Some(Info { last: v["last_update_sec"].as_u64().unwrap(), cum: bigs(&v["cumulative_token_amounts"]), records: v["records"].as_array().unwrap().iter().map(|r| (r["time_sec"].as_u64().unwrap(), bigs(&r["cumulative_token_amounts"]))).collect() })
}
fn plus(a: &[B], h: &[u128], dt: u64) -> Vec<B> {
    a.iter().zip(h).map(|(s, x)| s + B::from(*x) * B::from(dt)).collect()
}
struct Watcher {
    ints: BTreeMap<usize, Int>,
    interval: u64,
    full: u32,
    mixed: bool,
}
impl Watcher {
    /// accounts for the time up to now, before anything happens
    fn flow(&mut self, e: &Ex) {
        let now = e.w.now / 1_000_000_000;
        for t in self.ints.values_mut() {
            if let Some(h) = &t.held {
                t.sum = plus(&t.sum, h, now - t.at);
            } else if now > t.at {
                t.lost = true;
            }
            t.at = now;
        }
    }
    /// compares what is recorded with the integral
    fn look(&mut self, e: &Ex, what: &str, st: &mut Stats) -> Res {
        let now = e.w.now / 1_000_000_000;
        let mut mixed = false;
        for (p, t) in self.ints.iter_mut() {
            let i = match info(e, *p) {
                Some(i) => i,
                None => return viol("record-gone", format!("the record of pool {} disappears by {}", p, what)),
            };
            let u = unit(e, *p);
            if u != t.held && now > t.updated && u.is_some() {
                mixed = true;
            }
            t.held = u;
            if i.last != t.updated || i.cum != t.cum {
                ensure!(i.last == now, "update-time", "the record of pool {} is updated as of {} at {} by {}", p, i.last, now, what);
            }
            if i.last == now && !t.lost {
                ensure!(i.cum == t.sum, "integral", "after {} the record of pool {} at {} holds {:?}, but its contents per share amount to {:?} since registration (last updated {}, contents now {:?})", what, p, now, i.cum, t.sum, t.updated, t.held);
            }
            // records: spaced, bounded, each a point of the integral
            if i.last > t.updated {
                if i.last - t.records.last().unwrap().0 >= self.interval {
                    t.records.push((i.last, i.cum.clone()));
                    if t.records.len() > 60 {
                        t.records.remove(0);
                        st.label("oldest record dropped");
                    }
                }
                t.updated = i.last;
                st.label("updates");
            }
            t.cum = i.cum.clone();
            ensure!(i.records == t.records, "records", "after {} the record of pool {} lists {:?}, expected {:?} with interval {}", what, p, i.records, t.records, self.interval);
        }
        self.mixed |= mixed;
        for p in 0..POOLS {
            ensure!(self.ints.contains_key(&p) || info(e, p).is_none(), "unregistered", "pool {} has a record though it is not registered", p);
        }
        Ok(())
    }
    fn views(&mut self, e: &Ex, st: &mut Stats) -> Res {
        let now = e.w.now / 1_000_000_000;
        for (p, t) in self.ints.iter() {
            let u = unit(e, *p);
            let v = e.tv("get_unit_share_token_amounts", json!({ "pool_id": p }));
            match &u {
                Some(u) => ensure!(v.is_ok() && nums(v.as_ref().unwrap()) == *u, "unit-view", "a share of pool {} holds {:?}, reported {:?}", p, u, v),
                None => ensure!(v.is_err(), "unit-view", "pool {} has less than one share, reported {:?}", p, v),
            }
            if t.lost {
                continue;
            }
            let got = e.v("get_unit_share_twap_token_amounts", json!({ "pool_id": p }));
            let mut r = t.records.clone();
            let mut sum = t.cum.clone();
            if let Some(_) = &u {
                if now > t.updated {
                    sum = t.sum.clone();
                    if now - r.last().unwrap().0 >= self.interval {
                        r.push((now, sum.clone()));
                        if r.len() > 60 {
                            r.remove(0);
                        }
                    }
                }
                if r.len() == 60 {
                    let d = now.max(t.updated) - r[0].0;
                    let want: Vec<u128> = sum.iter().zip(&r[0].1).map(|(a, b)| big_u128(&((a - b) / B::from(d))).unwrap()).collect();
                    ensure!(!got.is_null() && nums(&got) == want, "average", "the average contents of a share of pool {} over {} s are {:?}, reported {:?}", p, d, want, got);
                    st.label("averages compared");
                    self.full += 1;
                    continue;
                }
            }
            ensure!(got.is_null(), "average", "pool {} with {} records reports an average {:?}", p, r.len(), got);
        }
        Ok(())
    }
}
fn hours(c: &Hours, st: &mut Stats) -> Res {
    let mut e = Ex::with(&c.setup);
    let mut w = Watcher { ints: BTreeMap::new(), interval: 720, full: 0, mixed: false };
    for t in &c.ts {
        w.flow(&e);
        let mut what = format!("{:?}", t);
        match t {
            T::Op(op) => {
                let r = e.run(op, true);
                what = show(&r);
                if let Some(_) = r.call {
                    st.label(&format!("{} {}", op_name(op), r.first_ok()));
                }
            }
            T::Wait(ns) => {
                e.w.now += ns;
                e.sync_prices();
                continue;
            }
            T::Interval(s) => {
                e.must(if s & 1 == 0 { OWNER } else { GUARD }, "modify_cumulative_info_record_interval_sec", json!({ "record_interval_sec": s }), 1);
                w.interval = *s as u64;
            }
            T::Reg { pool, on, by } => {
                let p = *pool as usize % POOLS;
                let who = [OWNER, GUARD, "alice.near"][*by as usize % 3];
                let u = unit(&e, p);
                let want = who != "alice.near" && if *on { u.is_some() && !w.ints.contains_key(&p) } else { w.ints.contains_key(&p) };
                let r = e.w.tx(who, EX, if *on { "register_pool_twap_record" } else { "unregister_pool_twap_record" }, json!({ "pool_id": p }), 1);
                ensure!(r.ok() == want, "registration", "{:?} by {}: {:?}", t, who, r.result);
                if want && *on {
                    let i = info(&e, p).unwrap();
                    let now = e.w.now / 1_000_000_000;
                    ensure!(i.last == now && i.records.len() == 1 && i.records[0] == (now, i.cum.clone()), "registration", "pool {} starts with {:?}", p, i.records);
                    w.ints.insert(p, Int { at: now, sum: i.cum.clone(), cum: i.cum.clone(), held: u, lost: false, updated: now, records: i.records });
                } else if want {
                    w.ints.remove(&p);
                }
            }
            T::Sync { pool, by } => {
                let p = *pool as usize % POOLS;
                let want = w.ints.contains_key(&p) && unit(&e, p).is_some();
                let r = e.w.tx(actor(*by), EX, "sync_pool_twap_record", json!({ "pool_id": p }), 0);
                ensure!(r.ok() == want, "sync", "{:?}: {:?}", t, r.result);
            }
            T::Burst { pool, n, ns } => {
                let p = *pool as usize % POOLS;
                if !w.ints.contains_key(&p) || unit(&e, p).is_none() {
                    continue;
                }
                for _ in 0..*n {
                    e.w.now += ns;
                    w.flow(&e);
                    let r = e.w.tx(BOT, EX, "sync_pool_twap_record", json!({ "pool_id": p }), 0);
                    ensure!(r.ok(), "sync", "{:?}: {:?}", t, r.result);
                    w.look(&e, "sync", st)?;
                }
                e.sync_prices();
            }
        }
        w.look(&e, &what, st)?;
        w.views(&e, st)?;
    }
    // at last everything is accounted for
    e.w.now += 3_000_000_000;
    w.flow(&e);
    w.views(&e, st)?;
    for p in w.ints.keys().cloned().collect::<Vec<_>>() {
        if unit(&e, p).is_some() {
            e.must(BOT, "sync_pool_twap_record", json!({ "pool_id": p }), 0);
        }
    }
    w.look(&e, "sync", st)?;
    if w.mixed || w.full > 0 {
        st.hit();
    }
    Ok(())
}

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C22",
            "a generated state with prices, one operation (mostly additions to degen pools, directly or by zap) on forks with generated limits around the value it leads to, beside a fork without limits; non-trivial: refused for the limit, or accepted although the pool is at or above it",
            900,
            30_000,
            || {
                let op = prop_oneof![
                    5 => (0u8..4, prop::sample::select(vec![5u8, 9]), [a0(), a0(), a0()]).prop_map(|(who, pool, a)| Op::AddStable { who, pool, a, min: 0 }),
                    4 => (0u8..4, good_path(2), amt_ok(), prop::collection::vec(prop_oneof![4 => prop::sample::select(vec![5u8, 9]), 1 => 0u8..10], 1..3), prop::collection::vec(super::forks::zap_a3(), 2), any::<bool>()).prop_map(|(who, mut path, a, pools, adds, half)| {
                        path.split = half as u8;
                        Op::Zap { who, path, a, pools, adds, min: 0 }
                    }),
                    3 => mix(&[(3, G::Swap), (2, G::Instant), (2, G::Remove), (2, G::AddStable)]),
                    1 => (0u8..4, prop::sample::select(vec![5u8, 9]), [a0(), a0(), a0()]).prop_map(|(who, pool, a)| Op::RemoveBy { who, pool, a, max: 1 }),
                ];
                let l = prop_oneof![6 => (-2i8..=2).prop_map(L::Off), 3 => any::<u16>().prop_map(L::Frac), 1 => Just(L::Zero), 1 => Just(L::Max)];
                (hist(STATE, 0..4), prop::collection::vec(l, 1..3), op, any::<u8>()).prop_map(|(h, at, op, by)| Lim { h, at, op, by }).boxed()
            },
            limit,
        ),
        def(
            "C23",
            "a generated setup and up to 25 operations, waits, registrations, interval changes and synchronisations, the recorded sums compared with an integral over the observed contents per share after each; non-trivial: contents per share changed some time after the last update, or an average over a full window was compared",
            500,
            20_000,
            || {
                let ops = mix(&[
                    (3, G::Add), (4, G::AddStable), (3, G::Remove), (4, G::RemoveBy), (7, G::Swap), (4, G::SwapOut), (5, G::Instant), (7, G::Zap), (2, G::Shadow), (2, G::Liquidate),
                    (2, G::OwnerFees), (1, G::DonateShare), (1, G::MftPool), (1, G::Fees), (1, G::Ramp),
                ]);
                let wait = prop_oneof![2 => 0u64..3_000_000_000, 3 => 0u64..2_000_000_000_000, 1 => 0u64..90_000_000_000_000];
                let iv = prop_oneof![Just(0u32), Just(1), 1u32..100, Just(720), 1u32..5000];
                let t = prop_oneof![
                    12 => ops.prop_map(T::Op),
                    6 => wait.prop_map(T::Wait),
                    2 => (any::<u8>(), prop::bool::weighted(0.8), any::<u8>()).prop_map(|(pool, on, by)| T::Reg { pool, on, by }),
                    1 => iv.prop_map(T::Interval),
                    2 => (any::<u8>(), any::<u8>()).prop_map(|(pool, by)| T::Sync { pool, by }),
                    1 => (any::<u8>(), prop_oneof![2 => 1u8..70, 1 => 55u8..64], prop_oneof![Just(1_000_000_000u64), 500_000_000u64..900_000_000_000]).prop_map(|(pool, n, ns)| T::Burst { pool, n, ns }),
                ];
                let first = prop::collection::vec((any::<u8>(), 0u8..2).prop_map(|(pool, by)| T::Reg { pool, on: true, by }), 1..5);
                (setup(), first, prop::collection::vec(t, 3..25))
                    .prop_map(|(setup, mut a, b)| {
                        a.extend(b);
                        Hours { setup, ts: a }
                    })
                    .boxed()
            },
            hours,
        ),
    ]
}
fn a0() -> BoxedStrategy<Amt> {
    prop_oneof![3 => Just(Amt::Small(0)), 8 => (1u16..=65535).prop_map(Amt::Frac), 2 => amt_ok()].boxed()
}
