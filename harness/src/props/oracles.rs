//! C21: reports of rates and prices against a model of what is accepted; trades against the clock.
use super::forks::state;
use super::gates::*;
use super::*;
use crate::ensure;
use crate::model::M;
use crate::vm::PromiseRes;
use num_bigint::BigUint as B;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const S: u64 = 1_000_000_000;
const DAY: u64 = 86_400 * S;
const ID2: &str = "00e867f0f4f61076456d1a73b14c7edc1cf5cef4f4d6193a33424288f11bd0f4";
const ID3: &str = "01e867f0f4f61076456d1a73b14c7edc1cf5cef4f4d6193a33424288f11bd0f4";

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Reports(Reports),
    Gate(Gate),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conf {
    expire: [u64; 2],
    recency: u32,
    stale: u32,
    valid: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reports {
    conf: Conf,
    steps: Vec<R>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum R {
    Ask { what: u8, mask: u8 },
    Answer { k: u8, a: [Ans; 2], wait: u64 },
    Wait { ns: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum At {
    /// around the oldest acceptable instant
    Edge(i8),
    Mid(u16),
    /// around the present
    Now(i8),
    Never(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ans {
    /// index of something that is no answer at all
    bad: Option<u8>,
    num: (u8, u32),
    dec: i8,
    at: At,
    rec: i8,
    twist: u8,
    expo: i8,
}
#[derive(Clone, Debug)]
enum Kind {
    Rate(&'static str),
    /// ratio of two reports of the price oracle / of pyth
    Ratio(bool),
    Price(u8),
    Pyth(&'static str),
}
/// token, what reports it
const RATED: [(&str, Kind); 5] = [
    ("stnear.near", Kind::Rate("get_st_near_price")),
    ("linear.near", Kind::Rate("ft_price")),
    ("nearx.near", Kind::Rate("get_nearx_price")),
    ("sfrax.near", Kind::Ratio(false)),
    ("sfrax.pyth.near", Kind::Ratio(true)),
];
const DEGEN: [(&str, Kind); 6] = [
    (WRAP, Kind::Price(24)),
    ("eth.bridge.near", Kind::Price(18)),
    ("usdc.near", Kind::Price(6)),
    ("dai.near", Kind::Pyth(PYTH_ID)),
    ("usn.near", Kind::Pyth(ID2)),
    ("frax.near", Kind::Pyth(PYTH_ID)),
];
const BASE: &str = "frax.near";

fn pow(n: u32) -> B {
    B::from(10u32).pow(n)
}
fn fit(x: B) -> Option<u128> {
    big_u128(&x)
}
fn configure(e: &mut Ex, c: &Conf) {
    e.must(OWNER, "update_degen_oracle_config", json!({"degen_oracle_config": {"PriceOracle": {"oracle_id": ORACLE, "expire_ts": c.expire[0].to_string(), "maximum_recency_duration_sec": c.recency, "maximum_staleness_duration_sec": c.stale}}}), 1);
    e.must(OWNER, "update_degen_oracle_config", json!({"degen_oracle_config": {"PythOracle": {"oracle_id": PYTH, "expire_ts": c.expire[1].to_string(), "pyth_price_valid_duration_sec": c.valid}}}), 1);
}
/// what is on record: value, time
fn record(e: &Ex) -> BTreeMap<String, (u128, u64)> {
    let mut m = BTreeMap::new();
    for (k, v) in e.v("list_rated_tokens", json!({})).as_object().unwrap() {
        m.insert(k.clone(), (num(&v["rate_price"]), num(&v["last_update_ts"]) as u64));
    }
    for (k, v) in e.v("list_degen_tokens", json!({})).as_object().unwrap() {
        m.insert(k.clone(), (num(&v["degen_price"]), num(&v["last_update_ts"]) as u64));
    }
    m
}
const GARBAGE: [&str; 12] = ["", "null", "{}", "[]", "12", "\"-1\"", "\"\"", "\"1.5\"", "\"340282366920938463463374607431768211456\"", "{\"timestamp\":\"1\"}", "\u{1}", "{\"price\":\"1\",\"conf\":\"1\",\"expo\":0}"];

/// what an answer must lead to
enum Want {
    Value(u128),
    Refuse,
    /// a value or nothing
    Maybe(u128),
}
struct Report {
    raw: PromiseRes,
    /// per token
    want: BTreeMap<String, Want>,
    /// something in it is out of range, so a common answer may be dropped as a whole
    poison: bool,
    why: &'static str,
}
fn ok(v: Value) -> PromiseRes {
    PromiseRes::Ok(v.to_string().into_bytes())
}
impl Ans {
    fn mult(&self) -> u128 {
        pow10(self.num.0 as u32 % 37).saturating_mul(self.num.1 as u128 % 100_000)
    }
    /// price oracle's time stamp, for a callback at `now`
    fn stamp(&self, now: u64, stale: u32) -> u64 {
        match self.at {
            At::Edge(d) => (now as i128 - stale as i128 * S as i128 + d as i128) as u64,
            At::Mid(f) => now - (stale as u128 * S as u128 * f as u128 / 65536) as u64,
            At::Now(d) => (now as i128 + d as i128) as u64,
            At::Never(d) => d.unsigned_abs() as u64,
        }
    }
    fn published(&self, now: u64, valid: u32) -> i64 {
        let (n, v) = ((now / S) as i64, valid as i64);
        match self.at {
            At::Edge(d) => n - v + d as i64 % 3,
            At::Mid(f) => n - v * f as i64 / 65536,
            At::Now(d) => n + d as i64,
            At::Never(d) => -(d.unsigned_abs() as i64) % 3,
        }
    }
    fn pyth(&self, now: u64, valid: u32) -> (Value, Option<(B, bool)>, &'static str) {
        let p = match self.twist {
            1 => 0,
            2 => -5,
            3 => i64::MAX,
            _ => (self.mult() % (i64::MAX as u128)) as i64,
        };
        let t = self.published(now, valid);
        let v = json!({"price": p.to_string(), "conf": "1", "expo": self.expo, "publish_time": t});
        if p <= 0 {
            return (v, None, "price not positive");
        }
        if t <= 0 || (t as u128 + valid as u128) * (S as u128) < now as u128 {
            return (v, None, "too old");
        }
        let x = pow(24) * B::from(p as u64);
        let e = self.expo.unsigned_abs() as u32;
        (v, Some(if self.expo > 0 { (x * pow(e), e > 38) } else { (x / pow(e), e > 38) }), "")
    }
}
/// the price oracle's answer about `assets` (id, decimals of ours if it is to become a price)
fn price_data(a: &Ans, now: u64, recency: u32, stale: u32, assets: &[(String, u8)]) -> (Value, Option<Vec<Option<(u128, u8)>>>, &'static str) {
    let ts = a.stamp(now, stale);
    let rec = (recency as i64 + a.rec as i64).max(0) as u32;
    let mut list = vec![];
    let mut said = vec![];
    for (i, (id, d)) in assets.iter().enumerate() {
        let dec = (*d as i32 + a.dec as i32 * (i as i32 + 1)).clamp(0, 255) as u8;
        let m = a.mult() / (i as u128 * 7 + 1);
        let missing = a.twist == 2 && i == a.num.1 as usize % assets.len();
        list.push(json!({"asset_id": id, "price": if missing { Value::Null } else { json!({"multiplier": m.to_string(), "decimals": dec}) }}));
        said.push(if missing { None } else { Some((m, dec)) });
    }
    let v = json!({"timestamp": ts.to_string(), "recency_duration_sec": rec, "prices": list});
    if rec > recency {
        return (v, None, "not confirmed recently enough");
    }
    if ts > now {
        return (v, None, "from the future");
    }
    if now - ts > stale as u64 * S {
        return (v, None, "too old");
    }
    (v, Some(said), "")
}
fn scaled(p: (u128, u8), own: u8) -> Option<u128> {
    if p.1 < own || p.1 - own > 38 {
        return None;
    }
    fit(pow(24) * B::from(p.0) / pow((p.1 - own) as u32))
}

#[derive(Clone, Debug)]
struct Ask {
    cb: u64,
    tokens: Vec<String>,
    batch: bool,
}
fn kind_of(t: &str) -> Kind {
    RATED.iter().chain(DEGEN.iter()).find(|x| x.0 == t).unwrap().1.clone()
}
fn is_price(t: &str) -> bool {
    matches!(kind_of(t), Kind::Price(_))
}
/// an answer to `ask`, read by the callback at `now`
fn answer(q: &Ask, c: &Conf, a: &[Ans; 2], now: u64, queries: &[Value]) -> (Vec<PromiseRes>, Report) {
    let mut r = Report { raw: PromiseRes::Failed, want: BTreeMap::new(), poison: false, why: "" };
    let refuse = |r: &mut Report, why: &'static str| {
        r.want = q.tokens.iter().map(|t| (t.clone(), Want::Refuse)).collect();
        r.why = why;
    };
    if let Some(b) = a[0].bad {
        refuse(&mut r, "no answer");
        let mut raws: Vec<PromiseRes> = queries.iter().map(|_| if b == 0 { PromiseRes::Failed } else { PromiseRes::Ok(GARBAGE[(b as usize - 1) % GARBAGE.len()].as_bytes().to_vec()) }).collect();
        // an empty list of prices is a well-formed answer about nothing
        if raws.len() == 2 && b % 2 == 0 {
            raws[0] = ok(a[1].pyth(now, c.valid).0);
        }
        return (raws, r);
    }
    let t = &q.tokens[0];
    match kind_of(t) {
        Kind::Rate(_) => {
            let m = a[0].mult();
            r.raw = ok(json!(m.to_string()));
            r.want.insert(t.clone(), if m == 0 { Want::Maybe(0) } else { Want::Value(m) });
        }
        Kind::Ratio(false) => {
            let mut assets = vec![(BASE.to_string(), 18u8), (t.clone(), 18)];
            let mut b = a[0].clone();
            let two = a[1].mult();
            b.dec = b.dec.abs();
            if b.twist == 1 {
                assets.swap(0, 1);
            }
            let (mut v, s, why) = price_data(&b, now, c.recency.min(90), 60, &assets);
            // the second price is its own
            let d = if b.twist == 3 { 1 } else { 0 };
            let dec0 = v["prices"][0]["price"]["decimals"].as_u64().unwrap_or(18);
            if !v["prices"][1]["price"].is_null() {
                v["prices"][1]["price"] = json!({"multiplier": two.to_string(), "decimals": dec0 + d});
            }
            if b.twist == 4 {
                v["prices"] = json!([v["prices"][0]]);
            }
            let want = match &s {
                None => Err(why),
                Some(x) if x.iter().any(|p| p.is_none()) => Err("price missing"),
                Some(_) if b.twist == 1 => Err("of another asset"),
                Some(_) if b.twist == 3 => Err("in different units"),
                Some(_) if b.twist == 4 => Err("price missing"),
                Some(x) => {
                    let base = x[0].unwrap().0;
                    if base == 0 { Err("base price zero") } else { fit(pow(24) * B::from(two) / B::from(base)).ok_or("out of range") }
                }
            };
            r.raw = ok(v);
            match want {
                Ok(x) => {
                    r.want.insert(t.clone(), if x == 0 { Want::Maybe(0) } else { Want::Value(x) });
                }
                Err(w) => refuse(&mut r, w),
            }
        }
        Kind::Ratio(true) => {
            let (v0, x0, w0) = a[0].pyth(now, 50);
            let (v1, x1, w1) = a[1].pyth(now, 50);
            let mut raws = vec![ok(v0), ok(v1)];
            if a[1].bad.is_some() {
                raws[1] = PromiseRes::Failed;
            }
            match (&x0, &x1) {
                _ if a[1].bad.is_some() => refuse(&mut r, "one report failed"),
                (None, _) => refuse(&mut r, w0),
                (_, None) => refuse(&mut r, w1),
                (Some((b, o0)), Some((x, o1))) => {
                    let y = if *b == B::from(0u8) { None } else { fit(pow(24) * x / b) };
                    let big = [b, x].iter().any(|z| z.bits() > 256) || (pow(24) * x).bits() > 256;
                    match y {
                        Some(y) if !o0 && !o1 && !big => {
                            r.want.insert(t.clone(), if y == 0 { Want::Maybe(0) } else { Want::Value(y) });
                        }
                        Some(y) => {
                            r.want.insert(t.clone(), Want::Maybe(y));
                        }
                        None => refuse(&mut r, "out of range"),
                    }
                }
            }
            return (raws, r);
        }
        Kind::Price(_) => {
            let own = |t: &str| match kind_of(t) {
                Kind::Price(d) => d,
                _ => 0,
            };
            let b = &a[0];
            let mut assets: Vec<(String, u8)> = q.tokens.iter().map(|t| (t.clone(), own(t))).collect();
            if q.batch && b.num.1 % 3 == 0 {
                assets.reverse();
            }
            match b.twist {
                1 if !q.batch => assets[0].0 = if b.num.1 % 2 == 0 { "other.near".into() } else { "usdc.near".to_string() + "x" },
                1 => assets[0].0 = "other.near".into(),
                // another asset beside
                4 if q.batch => assets.insert(0, ("other.near".into(), 3)),
                4 => assets.push(("other.near".into(), 3)),
                // a price of a token that was not asked for
                5 => assets.push((DEGEN.iter().find(|x| !q.tokens.contains(&x.0.to_string())).unwrap().0.to_string(), 6)),
                _ => {}
            }
            let (v, s, why) = price_data(b, now, c.recency, c.stale, &assets);
            let v = if b.twist == 3 {
                let mut v = v;
                v["prices"] = json!([]);
                v
            } else {
                v
            };
            r.raw = ok(v);
            match s {
                None => refuse(&mut r, why),
                Some(_) if b.twist == 3 => refuse(&mut r, "nothing in it"),
                Some(s) => {
                    for t in &q.tokens {
                        let w = match assets.iter().position(|x| x.0 == *t).map(|i| s[i]) {
                            None => (Want::Refuse, "of another asset"),
                            Some(None) => (Want::Refuse, "price missing"),
                            Some(Some(p)) => match scaled(p, own(t)) {
                                None => {
                                    r.poison = true;
                                    (Want::Refuse, "out of range")
                                }
                                Some(0) => (Want::Maybe(0), ""),
                                Some(x) => (Want::Value(x), ""),
                            },
                        };
                        if !w.1.is_empty() {
                            r.why = w.1;
                        }
                        r.want.insert(t.clone(), w.0);
                    }
                }
            }
        }
        Kind::Pyth(_) => {
            let mut by: BTreeMap<&str, (Value, Want)> = BTreeMap::new();
            let mut k = 0;
            for t in &q.tokens {
                let id = match kind_of(t) {
                    Kind::Pyth(id) => id,
                    _ => unreachable!(),
                };
                if !by.contains_key(id) {
                    let b = &a[k % 2];
                    k += 1;
                    if b.bad.is_some() || (q.batch && b.twist == 5) {
                        by.insert(id, (Value::Null, Want::Refuse));
                        r.why = "price missing";
                        continue;
                    }
                    let (v, x, why) = b.pyth(now, c.valid);
                    let w = match x {
                        None => {
                            r.why = why;
                            Want::Refuse
                        }
                        Some((x, over)) => match fit(x) {
                            Some(y) if over || y == 0 => {
                                r.poison |= over;
                                Want::Maybe(y)
                            }
                            Some(y) => Want::Value(y),
                            None => {
                                r.poison = true;
                                r.why = "out of range";
                                Want::Refuse
                            }
                        },
                    };
                    by.insert(id, (v, w));
                }
                let w = match &by[id].1 {
                    Want::Value(x) => Want::Value(*x),
                    Want::Maybe(x) => Want::Maybe(*x),
                    Want::Refuse => Want::Refuse,
                };
                r.want.insert(t.clone(), w);
            }
            r.raw = if q.batch {
                let mut m: serde_json::Map<String, Value> = by.into_iter().filter(|_| a[1].twist != 4).map(|(k, v)| (k.to_string(), v.0)).collect();
                if a[1].twist == 4 {
                    refuse(&mut r, "nothing in it");
                }
                m.insert(ID3.into(), json!({"price": "77", "conf": "1", "expo": 0, "publish_time": (now / S) as i64}));
                ok(Value::Object(m))
            } else {
                ok(by.into_values().next().unwrap().0)
            };
        }
    }
    (vec![r.raw.clone()], r)
}

fn reports(c: &Reports, st: &mut Stats) -> Res {
    let mut e = Ex::base();
    e.set_rates(1050, 50_000);
    {
        let now = (e.w.now / S) as i64;
        let p = &mut e.w.model_mut(PYTH).oracle_mut().pyth;
        p.insert(ID2.into(), Some((99_000_000, -8, now)));
    }
    for (t, k) in &RATED[2..] {
        let mut a = json!({"rate_type": if t.starts_with('n') { "NEARX" } else { "SFRAX" }, "token_id": t});
        match k {
            Kind::Ratio(false) => a["extra_info"] = json!(json!({"PriceOracle": {"oracle_id": ORACLE, "base_contract_id": BASE, "maximum_recency_duration_sec": c.conf.recency.min(90), "maximum_staleness_duration_sec": 60}}).to_string()),
            Kind::Ratio(true) => a["extra_info"] = json!(json!({"PythOracle": {"oracle_id": PYTH, "base_price_identifier": ID2, "rate_price_identifier": ID3, "pyth_price_valid_duration_sec": 50}}).to_string()),
            _ => {}
        }
        e.must(OWNER, "register_rated_token", a, 1);
    }
    for (t, k) in &DEGEN[4..] {
        if let Kind::Pyth(id) = k {
            e.must(OWNER, "register_degen_token", json!({"token_id": t, "degen_type": {"PythOracle": {"price_identifier": id}}}), 1);
        }
    }
    e.sync_prices();
    e.w.tx_drain(OWNER, EX, "batch_update_degen_token_price", json!({"token_ids": ["usn.near", "frax.near"]}), 0);
    configure(&mut e, &c.conf);
    let mut rec = record(&e);
    ensure!(rec.len() == 11 && DEGEN.iter().all(|d| rec[d.0].1 == e.w.now), "setup", "{:?}", rec);
    let mut asks: Vec<Ask> = vec![];
    let mut hit = false;
    let finish: Vec<R> = c.steps.clone();
    for s in &finish {
        match s {
            R::Wait { ns } => e.w.now += ns,
            R::Ask { what, mask } => {
                let mut calls: Vec<(Vec<String>, bool)> = vec![];
                let n = e.w.pending.len();
                let r = match what % 3 {
                    0 => {
                        let t = RATED[*mask as usize % 5].0;
                        calls.push((vec![t.into()], false));
                        e.w.tx(user(*mask), EX, "update_token_rate", json!({ "token_id": t }), 0)
                    }
                    1 => {
                        let t = DEGEN[*mask as usize % 6].0;
                        calls.push((vec![t.into()], false));
                        e.w.tx(user(*mask), EX, "update_degen_token_price", json!({ "token_id": t }), 0)
                    }
                    _ => {
                        let ts: Vec<String> = DEGEN.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, d)| d.0.to_string()).collect();
                        for p in [true, false] {
                            let v: Vec<String> = ts.iter().filter(|t| is_price(t) == p).cloned().collect();
                            if !v.is_empty() {
                                calls.push((v, true));
                            }
                        }
                        e.w.tx(user(*mask), EX, "batch_update_degen_token_price", json!({ "token_ids": ts }), 0)
                    }
                };
                ensure!(r.ok(), "cannot-ask", "asking for {:?} fails: {:?}", calls, r.result);
                let new: Vec<_> = e.w.pending[n..].to_vec();
                let cbs: Vec<_> = new.iter().filter(|x| !x.inputs.is_empty()).collect();
                ensure!(cbs.len() == calls.len() && cbs.iter().all(|x| x.receiver == EX), "ask-shape", "{:?} leads to {:?}", calls, new);
                for (tokens, batch) in calls {
                    // the question about these tokens
                    let mut found = None;
                    for cb in &cbs {
                        let q = e.w.feeders(cb.id);
                        let seen: Vec<(String, String, Value)> = q
                            .iter()
                            .map(|x| match &x.actions[..] {
                                [crate::vm::Action::Call { method, args, deposit: 0, .. }] => (x.receiver.clone(), method.clone(), serde_json::from_slice(args).unwrap_or(Value::Null)),
                                _ => ("?".into(), "?".into(), Value::Null),
                            })
                            .collect();
                        if asked_right(&tokens, batch, &c.conf, &seen) {
                            found = Some(cb.id);
                        }
                    }
                    match found {
                        Some(cb) => asks.push(Ask { cb, tokens, batch }),
                        None => return viol("wrong-source", format!("about {:?} the exchange asks {:?}", tokens, new)),
                    }
                }
            }
            R::Answer { k, a, wait } => {
                if asks.is_empty() {
                    continue;
                }
                let q = asks.remove(*k as usize % asks.len());
                let queries: Vec<Value> = e.w.feeders(q.cb).iter().map(|_| Value::Null).collect();
                let now = e.w.now + wait;
                let (raws, rep) = answer(&q, &c.conf, a, now, &queries);
                let before = e.w.wasm[EX].storage.clone();
                e.w.feed(q.cb, raws.clone());
                e.w.now = now;
                let x = e.w.step_id(q.cb);
                let same = e.w.wasm[EX].storage == before;
                let got = record(&e);
                let said = || {
                    raws.iter()
                        .map(|r| match r {
                            PromiseRes::Ok(b) => String::from_utf8_lossy(b).to_string(),
                            _ => "failure".into(),
                        })
                        .collect::<Vec<_>>()
                        .join(" and ")
                };
                let poisoned = rep.poison && same;
                for (t, old) in &rec {
                    let new = got[t];
                    match rep.want.get(t) {
                        _ if poisoned => {}
                        Some(Want::Value(v)) => {
                            ensure!(new == (*v, now), "not-accepted", "report {} about {} (of {:?}) at {}: {:?} -> {:?}, expected {}; {:?}", said(), t, q.tokens, now, old, new, v, x.result);
                            hit = true;
                            st.label(&format!("{} accepted", kind_name(t)));
                        }
                        Some(Want::Maybe(v)) => {
                            ensure!(new == (*v, now) || new == *old, "stored-wrong", "report {} about {} at {}: {:?} -> {:?}, expected {} or nothing", said(), t, now, old, new, v);
                            st.label("degenerate value");
                        }
                        Some(Want::Refuse) => {
                            ensure!(new == *old, "accepted", "report {} about {} at {} is {}, yet {:?} -> {:?}", said(), t, now, rep.why, old, new);
                            st.label(&format!("{} refused: {}", kind_name(t), rep.why));
                            hit = true;
                        }
                        None => ensure!(new == *old, "other-changed", "report {} about {:?} changes {}: {:?} -> {:?}", said(), q.tokens, t, old, new),
                    }
                }
                if rep.want.values().all(|w| matches!(w, Want::Refuse)) {
                    ensure!(same, "refused-with-effect", "refused report {} about {:?} changes the stored state", said(), q.tokens);
                }
                rec = got;
            }
        }
    }
    // validity ends where it is said to end
    let now = e.w.now;
    for (t, _) in RATED.iter().chain(DEGEN.iter()) {
        let (m, f, exp) = match kind_of(t) {
            Kind::Rate(_) | Kind::Ratio(_) => ("list_rated_tokens", "is_valid", DAY),
            Kind::Price(_) => ("list_degen_tokens", "is_price_valid", c.conf.expire[0]),
            Kind::Pyth(_) => ("list_degen_tokens", "is_price_valid", c.conf.expire[1]),
        };
        for (d, want) in [(0, true), (1, false)] {
            e.w.now = rec[*t].1 + exp + d;
            ensure!(e.v(m, json!({}))[*t][f] == want, "validity", "{} obtained at {} with validity {} is reported valid: {} at {}", t, rec[*t].1, exp, !want, e.w.now);
        }
    }
    e.w.now = now;
    if hit {
        st.hit();
    }
    Ok(())
}
fn kind_name(t: &str) -> &'static str {
    match kind_of(t) {
        Kind::Rate(_) => "rate",
        Kind::Ratio(false) => "price oracle ratio",
        Kind::Ratio(true) => "pyth ratio",
        Kind::Price(_) => "price oracle price",
        Kind::Pyth(_) => "pyth price",
    }
}
fn asked_right(tokens: &[String], batch: bool, c: &Conf, q: &[(String, String, Value)]) -> bool {
    let set = |v: &Value| -> BTreeSet<String> { v.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect() };
    let t = &tokens[0];
    let is = |i: usize, who: &str, m: &str| q[i].0 == who && q[i].1 == m;
    match kind_of(t) {
        Kind::Rate(m) => q.len() == 1 && is(0, t, m),
        Kind::Ratio(false) => q.len() == 1 && is(0, ORACLE, "get_price_data") && q[0].2["asset_ids"] == json!([BASE, t]),
        Kind::Ratio(true) => q.len() == 2 && (0..2).all(|i| is(i, PYTH, "get_price") && q[i].2["price_identifier"] == [ID2, ID3][i]),
        Kind::Price(_) => q.len() == 1 && is(0, ORACLE, "get_price_data") && set(&q[0].2["asset_ids"]) == tokens.iter().cloned().collect(),
        Kind::Pyth(id) if !batch => q.len() == 1 && is(0, PYTH, "get_price") && q[0].2["price_identifier"] == id,
        Kind::Pyth(_) => {
            let ids: BTreeSet<String> = tokens
                .iter()
                .map(|t| match kind_of(t) {
                    Kind::Pyth(i) => i.to_string(),
                    _ => String::new(),
                })
                .collect();
            q.len() == 1 && is(0, PYTH, "list_prices_no_older_than") && set(&q[0].2["price_ids"]) == ids && q[0].2["age"] == c.valid
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gate {
    h: Hist,
    conf: Conf,
    tok: u8,
    ns: i8,
    /// reported again in time
    fresh: u8,
    /// a token whose report is zero
    zero: Option<u8>,
    op: Op,
}
const USED: [&str; 6] = ["stnear.near", "linear.near", WRAP, "eth.bridge.near", "usdc.near", "dai.near"];
/// tells the exchange the value of a token at this moment
fn report(e: &mut Ex, t: &str, v: u128) -> bool {
    let (m, r) = match kind_of(t) {
        Kind::Rate(_) | Kind::Ratio(_) => ("update_token_rate_callback", json!(v.to_string())),
        Kind::Price(d) => ("update_degen_token_price_callback", json!({"timestamp": e.w.now.to_string(), "recency_duration_sec": 0, "prices": [{"asset_id": t, "price": {"multiplier": v.to_string(), "decimals": d + 24}}]})),
        Kind::Pyth(_) => {
            let (mut p, mut x) = (v, -24);
            while p > 0 && p % 10 == 0 && x < 0 {
                p /= 10;
                x += 1;
            }
            ("update_degen_token_price_callback", json!({"price": p.to_string(), "conf": "1", "expo": x, "publish_time": (e.w.now / S + 1) as i64}))
        }
    };
    e.w.callback(EX, EX, m, json!({ "token_id": t }), 0, vec![ok(r)]).ok()
}
/// the pools at whose prices the call trades
fn priced(c: &Call) -> Vec<usize> {
    match &c.method[..] {
        "remove_liquidity" | "remove_exchange_fee_liquidity" | "on_burrow_liquidation" => vec![],
        _ => M::touched(c).unwrap_or_default(),
    }
}
fn gate(c: &Gate, st: &mut Stats) -> Res {
    let mut e = state(&c.h);
    e.w.drain();
    configure(&mut e, &c.conf);
    // nobody reports anything from now on
    for o in [ORACLE, PYTH] {
        e.w.model_mut(o).oracle_mut().fail = true;
    }
    let rec = record(&e);
    let validity = |t: &str| match kind_of(t) {
        Kind::Rate(_) | Kind::Ratio(_) => DAY,
        Kind::Price(_) => c.conf.expire[0],
        Kind::Pyth(_) => c.conf.expire[1],
    };
    // by preference a token the operation needs
    let pools = e.pools();
    let first: Vec<&str> = e.call_of(&c.op).map(|x| priced(&x).into_iter().flat_map(|p| pools[p].tokens.clone()).filter_map(|t| USED.iter().find(|u| **u == t).copied()).collect()).unwrap_or_default();
    let t = if first.is_empty() { USED[c.tok as usize % 6] } else { first[c.tok as usize % first.len()] };
    let at = (rec[t].1 + validity(t)) as i128 + c.ns as i128;
    if at <= e.w.now as i128 {
        return Ok(());
    }
    e.w.now = at as u64;
    let mut b = e.clone();
    for u in USED {
        ensure!(report(&mut b, u, rec[u].0), "refresh", "{} {}", u, rec[u].0);
        if c.fresh & (1 << USED.iter().position(|x| *x == u).unwrap()) != 0 && u != t {
            report(&mut e, u, rec[u].0);
        }
    }
    let mut zero = None;
    if let Some(z) = c.zero {
        e = b.clone();
        let z = if first.is_empty() { USED[z as usize % 6] } else { first[z as usize % first.len()] };
        if kind_name(z) != "pyth price" && report(&mut e, z, 0) && record(&e)[z].0 == 0 {
            zero = Some(z);
        }
    }
    ensure!(USED.iter().all(|u| record(&b)[*u] == (rec[*u].0, b.w.now)), "refresh", "{:?}", record(&b));
    let call = match b.call_of(&c.op) {
        Some(x) => x,
        None => return Ok(()),
    };
    let now_rec = record(&e);
    let stale: Vec<String> = priced(&call)
        .into_iter()
        .filter(|p| pools[*p].rated() || pools[*p].degen())
        .flat_map(|p| {
            let rated = pools[p].rated();
            pools[p].tokens.clone().into_iter().filter(move |t| USED.iter().position(|u| u == t).map_or(false, |i| (i < 2) == rated))
        })
        .filter(|t| e.w.now > now_rec[t].1 + validity(t) || zero == Some(&t[..]))
        .collect();
    let a = full(&e);
    let (okb, _) = go(&mut b, &call);
    let (oka, r) = go(&mut e, &call);
    let x = full(&e);
    let run = OpRun { call: None, executed: r };
    if stale.is_empty() {
        let (mut y, x) = (full(&b), x);
        y.near = x.near.clone();
        if zero.is_none() {
            ensure!(oka == okb && x == y, "fresh-differs", "{} needs nothing that is out of date, but with everything renewed it differs: {} and {}: {}; {}", op_name(&c.op), oka, okb, fdiff(&x, &y), show(&run));
        }
        st.label(&format!("{} on fresh values {}", op_name(&c.op), oka));
        if oka && (-1..=0).contains(&c.ns) && priced(&call).iter().any(|p| pools[*p].tokens.iter().any(|u| u == t)) {
            st.label("used in the last instant");
            st.hit();
        }
    } else {
        let why = if zero.is_some() { "worth nothing" } else { "out of date" };
        ensure!(!oka, if zero.is_some() { "trades-at-zero" } else { "trades-stale" }, "{} by {} at {} works though {:?} is {} ({:?}): {:?}; pools {:?}; {}", op_name(&c.op), call.signer, e.w.now, stale, why, now_rec, call, priced(&call), show(&run));
        ensure!(unchanged(&a, &x, &call), "refused-with-effect", "{} is refused as {:?} is {}, but {}; {}", op_name(&c.op), stale, why, fdiff(&a, &x), show(&run));
        st.label(&format!("{} {}{}", op_name(&c.op), why, if okb { "" } else { " (invalid anyway)" }));
        if okb {
            st.hit();
        }
    }
    Ok(())
}

fn conf() -> BoxedStrategy<Conf> {
    let exp = || prop_oneof![2 => Just(3600 * S), 2 => (1u64..200_000).prop_map(|s| s * S), 1 => (S..90_000 * S)];
    (exp(), exp(), prop_oneof![Just(90u32), 0u32..300], prop_oneof![Just(90u32), 0u32..300], prop_oneof![Just(60u32), 0u32..300])
        .prop_map(|(a, b, recency, stale, valid)| Conf { expire: [a, b], recency, stale, valid })
        .boxed()
}
fn ans() -> BoxedStrategy<Ans> {
    let at = prop_oneof![2 => (-2i8..=2).prop_map(At::Edge), 6 => any::<u16>().prop_map(At::Mid), 2 => (-2i8..=2).prop_map(At::Now), 1 => any::<i8>().prop_map(At::Never)];
    (
        prop_oneof![8 => Just(None), 1 => (0u8..13).prop_map(Some)],
        (0u8..37, any::<u32>()),
        prop_oneof![8 => 0i8..14, 1 => -3i8..45],
        at,
        prop_oneof![6 => -30i8..=0, 1 => Just(1i8)],
        prop_oneof![8 => Just(0u8), 4 => 1u8..6],
        prop_oneof![8 => -12i8..=2, 1 => -45i8..=45],
    )
        .prop_map(|(bad, num, dec, at, rec, twist, expo)| Ans { bad, num, dec, at, rec, twist, expo })
        .boxed()
}
fn steps() -> BoxedStrategy<Vec<R>> {
    let wait = || prop_oneof![3 => Just(0u64), 2 => 0u64..5 * S, 1 => 0u64..400 * S];
    let ask = (0u8..3, any::<u8>()).prop_map(|(what, mask)| R::Ask { what, mask });
    let answer = (any::<u8>(), [ans(), ans()], wait()).prop_map(|(k, a, wait)| R::Answer { k, a, wait });
    let w = prop_oneof![0u64..100 * S, 0u64..2 * DAY].prop_map(|ns| R::Wait { ns });
    prop::collection::vec(prop_oneof![5 => ask, 5 => answer, 1 => w], 2..14).boxed()
}
fn gate_ops() -> BoxedStrategy<Op> {
    mix(&[(5, G::Swap), (4, G::SwapOut), (6, G::AddStable), (4, G::Remove), (6, G::RemoveBy), (6, G::Instant), (6, G::Zap)])
        .prop_map(|mut o| {
            match &mut o {
                Op::Swap { path, .. } | Op::Instant { path, .. } | Op::Zap { path, .. } => {
                    path.bad = 0;
                    path.hops.truncate(2);
                }
                _ => {}
            }
            match &mut o {
                Op::AddStable { min, .. } | Op::Remove { min, .. } | Op::Zap { min, .. } => *min = 0,
                Op::RemoveBy { max, who, .. } => {
                    *max = 1;
                    *who = 3;
                }
                _ => {}
            }
            o
        })
        .boxed()
}
const HISTORY: &[(u32, G)] = &[(4, G::AddStable), (2, G::RemoveBy), (4, G::Swap), (2, G::Instant), (2, G::Rates), (1, G::Advance), (1, G::Limit)];

pub fn defs() -> Vec<Def> {
    vec![def(
        "C21",
        "either up to 13 questions and answers, well-formed or not, for 11 tokens of every kind of source, in any order and at any age; or a trade or liquidity operation at the last instant of validity of a used rate or price or just after, beside a fork where all are renewed; non-trivial: a report was accepted or refused for a stated reason, or an operation that otherwise succeeds met an expired value, or one succeeded in the last instant",
        1500,
        60_000,
        || {
            let g = (hist(HISTORY, 0..5), conf(), any::<u8>(), prop_oneof![3 => Just(1i8), 2 => Just(0i8), 1 => Just(-1i8), 1 => any::<i8>()], any::<u8>(), prop_oneof![9 => Just(None), 1 => any::<u8>().prop_map(Some)], gate_ops())
                .prop_map(|(h, conf, tok, ns, fresh, zero, op)| Case::Gate(Gate { h, conf, tok, ns, fresh, zero, op }));
            let r = (conf(), steps()).prop_map(|(conf, steps)| Case::Reports(Reports { conf, steps }));
            prop_oneof![1 => g, 1 => r].boxed()
        },
        |c: &Case, st: &mut Stats| match c {
            Case::Reports(r) => reports(r, st),
            Case::Gate(g) => gate(g, st),
        },
    )]
}
