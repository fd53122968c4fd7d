//! C20: the amplification follows the announced line.
use super::*;
use crate::ensure;
use crate::model::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum A {
    /// target relative to the present value, end relative to now
    Ramp { pool: u8, to: To, end: When, by: u8 },
    Stop { pool: u8, by: u8 },
    /// some time, or to an instant of a pool's ramp
    Wait(When),
    Instant { pool: u8, at: u8, ns: i8 },
    Trade(Op),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum To {
    Times(u8, i8),
    Over(u8, i8),
    Abs(u64),
    Top(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum When {
    /// a day and some nanoseconds
    Day(i8),
    Secs(u32),
    Nanos(u64),
}
const DAY: u64 = 86_400_000_000_000;
impl When {
    fn ns(&self) -> u64 {
        match self {
            When::Day(d) => (DAY as i64 + *d as i64) as u64,
            When::Secs(s) => *s as u64 * 1_000_000_000,
            When::Nanos(n) => *n,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    acts: Vec<A>,
}
#[derive(Clone, Debug)]
struct Line {
    from: u128,
    to: u128,
    t0: u64,
    t1: u64,
}
impl Line {
    fn at(&self, now: u64) -> u128 {
        if now >= self.t1 {
            return self.to;
        }
        let (n, d) = ((now - self.t0) as u128, (self.t1 - self.t0) as u128);
        if self.to >= self.from { self.from + (self.to - self.from) * n / d } else { self.from - (self.from - self.to) * n / d }
    }
}
const CURVES: [usize; 6] = [3, 4, 5, 7, 8, 9];

fn check(c: &Case, st: &mut Stats) -> Res {
    let mut e = Ex::with(&c.setup);
    let mut lines: Vec<Line> = (0..POOLS).map(|_| Line { from: c.setup.amp as u128, to: c.setup.amp as u128, t0: 0, t1: 0 }).collect();
    let (mut during, mut ramps) = (0, 0);
    let view = |e: &Ex, i: usize| -> u128 {
        let m = ["get_stable_pool", "get_rated_pool", "get_degen_pool"][if e.pool(i).stable() { 0 } else if e.pool(i).rated() { 1 } else { 2 }];
        e.v(m, json!({ "pool_id": i }))["amp"].as_u64().unwrap() as u128
    };
    for a in &c.acts {
        let now = e.w.now;
        match a {
            A::Wait(w) => {
                e.w.now += w.ns();
                e.sync_prices();
            }
            A::Instant { pool, at, ns } => {
                let l = &lines[CURVES[*pool as usize % 6]];
                let t = l.t0 as i128 + (l.t1 - l.t0) as i128 * *at as i128 / 100 + *ns as i128;
                if t > now as i128 {
                    e.w.now = t as u64;
                    e.sync_prices();
                }
            }
            A::Ramp { pool, to, end, by } => {
                let i = CURVES[*pool as usize % 6];
                let cur = lines[i].at(now);
                let f = match to {
                    To::Times(k, d) => cur as i128 * *k as i128 + *d as i128,
                    To::Over(k, d) => cur as i128 / (*k).max(1) as i128 + *d as i128,
                    To::Abs(x) => *x as i128,
                    To::Top(d) => 1_000_000 + *d as i128,
                }
                .clamp(0, u64::MAX as i128) as u128;
                let who = [OWNER, OWNER, GUARD, "mallory.near"][*by as usize % 4];
                let end = now + end.ns();
                let want = who != "mallory.near"
                    && now >= lines[i].t0 + DAY
                    && end >= now + DAY
                    && f > 0
                    && f < 1_000_000
                    && if f >= cur { f <= cur * 10 } else { f * 10 >= cur };
                let r = e.w.tx(who, EX, "stable_swap_ramp_amp", json!({"pool_id": i, "future_amp_factor": f as u64, "future_amp_time": end.to_string()}), 1);
                ensure!(r.ok() == want, "ramp accepted", "ramp of pool {} from {} ({:?}) to {} ending in {} ns by {}: {:?}", i, cur, lines[i], f, end - now, who, r.result);
                if r.ok() {
                    if now < lines[i].t1 {
                        st.label("ramp replaced under way");
                    }
                    lines[i] = Line { from: cur, to: f, t0: now, t1: end };
                    ramps += 1;
                } else {
                    st.label("ramp refused");
                }
            }
            A::Stop { pool, by } => {
                let i = CURVES[*pool as usize % 6];
                let who = [OWNER, OWNER, GUARD, "mallory.near"][*by as usize % 4];
                let cur = lines[i].at(now);
                let r = e.w.tx(who, EX, "stable_swap_stop_ramp_amp", json!({ "pool_id": i }), 1);
                ensure!(r.ok() == (who != "mallory.near"), "stop accepted", "stop of pool {} by {}: {:?}", i, who, r.result);
                if r.ok() {
                    if now < lines[i].t1 {
                        st.label("stopped under way");
                    }
                    lines[i] = Line { from: cur, to: cur, t0: now, t1: now };
                }
            }
            A::Trade(op) => {
                let s = e.snap(&SnapSpec { dep: true, pools: true, shares: true, locks: true, ..SNAP_NONE });
                let mut m = M::new(&e, &s.pools);
                for i in CURVES {
                    m.pools[i].amp = lines[i].at(now) as u64;
                }
                let m0 = m.clone();
                let run = e.run(op, true);
                let main = run.executed.iter().find(|x| x.receiver == EX && x.predecessor != EX);
                if let Some(call) = &run.call {
                    // quotes use the present value
                    if let (Op::Swap { .. }, Some(x)) = (op, call.args["actions"].as_array().filter(|x| x.len() == 1)) {
                        let x = &x[0];
                        let (p, i, o) = (num(&x["pool_id"]) as usize, x["token_in"].as_str().unwrap(), x["token_out"].as_str().unwrap());
                        let mut f = e.clone();
                        f.w.now = now;
                        let mut q = M::new(&f, &f.pools());
                        for i in CURVES {
                            q.pools[i].amp = lines[i].at(now) as u64;
                        }
                        let quote = f.tv("get_return", json!({"pool_id": p, "token_in": i, "amount_in": x["amount_in"], "token_out": o}));
                        if let (Ok(v), Ok(y)) = (quote, q.swap(p, i, num(&x["amount_in"]), o, false)) {
                            ensure!(num(&v) == y, "quote", "quote {} but the amplification {} gives {}: pool {} {:?}", v, q.pools[p].amp, y, p, lines[p]);
                        }
                    }
                    if let (Some(r), true) = (m.apply(call, &s), main.map_or(false, |x| x.ok())) {
                        let touched = M::touched(call).unwrap();
                        let b = e.pools();
                        if let Ok(_) = r {
                            for i in &touched {
                                if m.pools[*i].simple() {
                                    continue;
                                }
                                ensure!(
                                    m.pools[*i].amounts == b[*i].amounts && m.pools[*i].supply == b[*i].supply,
                                    "trade",
                                    "{} in pool {} at amplification {} ({:?}, now {}): reserves {:?} shares {}, expected {:?} {}; before {:?}",
                                    op_name(op), i, m0.pools[*i].amp, lines[*i], now, b[*i].amounts, b[*i].supply, m.pools[*i].amounts, m.pools[*i].supply, s.pools[*i]
                                );
                                let l = &lines[*i];
                                if now < l.t1 && l.from != l.to {
                                    during += 1;
                                    st.label(&format!("{} during a ramp", op_name(op)));
                                }
                            }
                        } else {
                            for i in &touched {
                                ensure!(matches!(r, Err(Fail::Range)), "trade", "{} in pool {} succeeded though invalid at amplification {}: {:?}", op_name(op), i, m0.pools[*i].amp, r.as_ref().err());
                            }
                        }
                    }
                }
            }
        }
        for i in CURVES {
            let want = lines[i].at(e.w.now);
            let got = view(&e, i);
            ensure!(got == want, "value", "pool {}: amplification {} at {}, the line {:?} says {} after {:?}", i, got, e.w.now, lines[i], want, a);
        }
    }
    if ramps > 0 {
        st.label("a ramp took place");
    }
    if during > 0 {
        st.hit();
    }
    Ok(())
}
fn case() -> BoxedStrategy<Case> {
    let when = || {
        prop_oneof![
            3 => (-2i8..3).prop_map(When::Day),
            3 => (86_400u32..800_000).prop_map(When::Secs),
            1 => (0u32..86_400).prop_map(When::Secs),
            2 => (86_400_000_000_000u64..400_000_000_000_000).prop_map(When::Nanos),
        ]
    };
    let to = prop_oneof![
        3 => (1u8..=10, -1i8..=1).prop_map(|(k, d)| To::Times(k, d)),
        3 => (1u8..=10, -1i8..=2).prop_map(|(k, d)| To::Over(k, d)),
        1 => (0u64..2000).prop_map(To::Abs),
        1 => (-2i8..2).prop_map(To::Top),
    ];
    let pool = || prop_oneof![4 => Just(0u8), 2 => Just(2u8), 2 => Just(1u8), 1 => 0u8..6];
    let curve_trade = || {
        let p = || prop::sample::select(vec![3u8, 3, 3, 5, 4, 7, 8, 9]);
        let a3 = || [amt_ok(), amt_ok(), amt_ok()];
        prop_oneof![
            6 => (0u8..4, 0u8..4, prop::collection::vec(any::<u8>(), 1..3), (1u16..20_000).prop_map(Amt::Frac)).prop_map(|(who, tok, hops, a)| Op::Swap { who, path: Path { tok, hops, split: 0, bad: 0 }, a, refer: false, via: 0, attach: true }),
            2 => (0u8..4, p(), a3()).prop_map(|(who, pool, a)| Op::AddStable { who, pool, a, min: 0 }),
            2 => (p(), a3()).prop_map(|(pool, a)| Op::RemoveBy { who: 3, pool, a, max: 1 }),
            1 => (p(), amt_ok()).prop_map(|(pool, a)| Op::Remove { who: 3, pool, a, min: 0 }),
        ]
    };
    let act = prop_oneof![
        5 => (pool(), to, when(), 0u8..4).prop_map(|(pool, to, end, by)| A::Ramp { pool, to, end, by }),
        1 => (pool(), 0u8..4).prop_map(|(pool, by)| A::Stop { pool, by }),
        2 => when().prop_map(A::Wait),
        3 => (pool(), prop_oneof![3 => 0u8..=100, 1 => Just(100u8), 1 => 100u8..130], -2i8..3).prop_map(|(pool, at, ns)| A::Instant { pool, at, ns }),
        7 => curve_trade().prop_map(A::Trade),
    ];
    // amplifications over the whole range
    let amp = prop_oneof![2 => Just(100u64), 2 => 1u64..200, 1 => 1u64..=1_000_000];
    // most histories begin with a ramp and an instant on its way
    let first = (0u8..6, 2u8..=10, any::<bool>(), when(), 1u8..99, prop::bool::weighted(0.8));
    (setup(), amp, prop::collection::vec(act, 4..18), first)
        .prop_map(|(mut setup, amp, mut acts, (pool, k, up, end, at, on))| {
            setup.amp = amp;
            if on {
                let to = if up { To::Times(k, 0) } else { To::Over(k, 1) };
                acts.insert(0, A::Ramp { pool, to, end, by: 0 });
                acts.insert(1, A::Instant { pool, at, ns: 0 });
                let p = CURVES[pool as usize % 6] as u8;
                if k % 2 == 0 {
                    acts.insert(2, A::Trade(Op::AddStable { who: k % 4, pool: p, a: [Amt::Frac(at as u16 * 300), Amt::Frac(50), Amt::Frac(k as u16 * 1000)], min: 0 }));
                } else {
                    acts.insert(2, A::Trade(Op::RemoveBy { who: 3, pool: p, a: [Amt::Frac(at as u16 * 300), Amt::Frac(50), Amt::Frac(k as u16 * 1000)], max: 1 }));
                }
            }
            Case { setup, acts }
        })
        .boxed()
}

pub fn defs() -> Vec<Def> {
    vec![def(
        "C20",
        "a generated list of ramps, stops, trades and instants (including the exact ends, a nanosecond before and after); non-trivial: at least one operation in a pool while its amplification is moving",
        800,
        60_000,
        case,
        |c: &Case, st| check(c, st),
    )]
}
