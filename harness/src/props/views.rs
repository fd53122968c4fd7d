//! C30 and C48: what the views of the exchange and of the farming contract report is consistent and true.
use super::farm::*;
use super::*;
use crate::ensure;
use crate::model::{b, volumes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Set {
    Freeze(u8, bool),
    White(u8, bool),
    Refer(u8, Option<u16>),
    Guard(u8, bool),
    Twap(u8, bool),
    Limit(u8, Option<u32>),
    Postfix(u8, bool),
    Echo(u8, u8, bool),
    Rated(u8, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Look {
    h: Hist,
    sets: Vec<Set>,
    /// a full set of time-weighted records
    full: bool,
    /// swaps of an unregistered account whose output can not be delivered
    lost: Vec<(u8, u8)>,
    /// time passing at the end, without news of prices
    wait: u32,
    pages: Vec<(u8, u8)>,
    picks: Vec<u8>,
}
const EXTRA: [&str; 6] = ["x1.near", "x2.near", "x3.near", "x4.near", "x5.near", "x6.near"];
fn extra(k: u8) -> &'static str {
    EXTRA[k as usize % 6]
}
#[derive(Default)]
struct Kept {
    frozen: BTreeSet<String>,
    white: BTreeSet<String>,
    refer: BTreeMap<String, u128>,
    guards: BTreeSet<String>,
    twap: BTreeSet<u64>,
    limit: BTreeMap<u64, u128>,
    postfix: BTreeSet<String>,
    echo: [BTreeSet<String>; 3],
    rated: BTreeSet<String>,
}
fn strings(v: &Value, what: &str) -> Result<BTreeSet<String>, Viol> {
    let a = v.as_array().unwrap();
    let s: BTreeSet<String> = a.iter().map(|x| x.as_str().unwrap().to_string()).collect();
    ensure!(s.len() == a.len(), "repeats", "{} lists an entry twice: {}", what, v);
    Ok(s)
}
const ECHO: [(&str, &str, &str, &str); 3] = [
    ("get_client_echo_token_id_whitelist", "extend_client_echo_token_id_whitelist", "remove_client_echo_token_id_whitelist", "token_ids"),
    ("get_client_echo_sender_id_whitelist", "extend_client_echo_sender_id_whitelist", "remove_client_echo_sender_id_whitelist", "sender_ids"),
    ("get_secure_sender_whitelist", "extend_secure_sender_whitelist", "remove_secure_sender_whitelist", "sender_ids"),
];

impl Kept {
    fn new(setup: &Setup) -> Kept {
        let set = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>();
        Kept {
            white: TOKENS.iter().filter(|t| t.whitelisted && !t.id.contains("bridge")).map(|t| t.id.to_string()).collect(),
            refer: BTreeMap::from([(REFER.to_string(), if setup.referral > 0 { setup.referral as u128 } else { 1000 })]),
            guards: set(&[GUARD]),
            postfix: set(&[".bridge.near"]),
            echo: [set(&[WRAP, "usdc.near", "dai.near", "stnear.near"]), set(&["alice.near", "bob.near", BOT]), set(&[BOT])],
            rated: set(&["stnear.near", "linear.near"]),
            ..Default::default()
        }
    }
    fn apply(&mut self, e: &mut Ex, s: &Set) {
        let flip = |e: &mut Ex, set: &mut BTreeSet<String>, x: &str, on: bool, m: [&str; 2], key: &str| {
            let r = e.w.tx(OWNER, EX, m[!on as usize], json!({ key: [x] }), 1);
            if r.ok() {
                if on {
                    set.insert(x.into());
                } else {
                    set.remove(x);
                }
            }
        };
        let name = |k: u8| if k & 64 == 0 { extra(k) } else { tok(k as usize % 8).id };
        match s {
            Set::Freeze(k, on) => flip(e, &mut self.frozen, extra(*k), *on, ["extend_frozenlist_tokens", "remove_frozenlist_tokens"], "tokens"),
            Set::White(k, on) => flip(e, &mut self.white, name(*k), *on, ["extend_whitelisted_tokens", "remove_whitelisted_tokens"], "tokens"),
            Set::Guard(k, on) => flip(e, &mut self.guards, extra(*k), *on, ["extend_guardians", "remove_guardians"], "guardians"),
            Set::Postfix(k, on) => flip(e, &mut self.postfix, &format!(".{}", extra(*k)), *on, ["extend_auto_whitelisted_postfix", "remove_auto_whitelisted_postfix"], "postfixes"),
            Set::Echo(l, k, on) => {
                let l = *l as usize % 3;
                flip(e, &mut self.echo[l], extra(*k), *on, [ECHO[l].1, ECHO[l].2], ECHO[l].3)
            }
            Set::Refer(k, v) => {
                let x = extra(*k);
                let r = match v {
                    Some(f) if self.refer.contains_key(x) => e.w.tx(OWNER, EX, "update_referral", json!({"referral_id": x, "fee_bps": f}), 1),
                    Some(f) => e.w.tx(OWNER, EX, "insert_referral", json!({"referral_id": x, "fee_bps": f}), 1),
                    None => e.w.tx(OWNER, EX, "remove_referral", json!({ "referral_id": x }), 1),
                };
                if r.ok() {
                    match v {
                        Some(f) => self.refer.insert(x.into(), *f as u128),
                        None => self.refer.remove(x),
                    };
                }
            }
            Set::Twap(p, on) => {
                let p = *p as u64 % POOLS as u64;
                if e.w.tx(OWNER, EX, if *on { "register_pool_twap_record" } else { "unregister_pool_twap_record" }, json!({ "pool_id": p }), 1).ok() {
                    if *on {
                        self.twap.insert(p);
                    } else {
                        self.twap.remove(&p);
                    }
                }
            }
            Set::Limit(p, v) => {
                let p = [5u64, 9][*p as usize % 2];
                let a = |x: &u32| json!({"pool_id": p, "degen_pool_limit_info": {"tvl_limit": (*x as u128 * 1_000_000).to_string()}});
                let r = match v {
                    Some(x) => e.w.tx(OWNER, EX, if self.limit.contains_key(&p) { "update_degen_pool_limit" } else { "add_degen_pool_limit" }, a(x), 1),
                    None => e.w.tx(OWNER, EX, "remove_pool_limit", json!({ "pool_id": p }), 1),
                };
                if r.ok() {
                    match v {
                        Some(x) => self.limit.insert(p, *x as u128 * 1_000_000),
                        None => self.limit.remove(&p),
                    };
                }
            }
            Set::Rated(k, on) => {
                let x = extra(*k);
                let r = if *on { e.w.tx(OWNER, EX, "register_rated_token", json!({"rate_type": "LINEAR", "token_id": x}), 1) } else { e.w.tx(OWNER, EX, "unregister_rated_token", json!({ "token_id": x }), 1) };
                if r.ok() {
                    if *on {
                        self.rated.insert(x.into());
                    } else {
                        self.rated.remove(x);
                    }
                }
            }
        }
        e.w.drain();
    }
}

/// with sets in order
fn norm(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(a) = v.get_mut("farms").and_then(|x| x.as_array_mut()) {
        a.sort_by_key(|x| x.to_string());
    }
    v
}
type Map = BTreeMap<String, Value>;
fn obj(v: &Value) -> Map {
    v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), norm(v))).collect()
}
/// Pages of a listing that is a map: each covers its part, all of them cover everything exactly once.
fn map_pages(list: &dyn Fn(Value) -> Value, whole: &Map, what: &str, pages: &[(u8, u8)], max_page: u64) -> Res {
    let all = obj(&list(json!({})));
    ensure!(all == *whole, "list", "{} lists {:?}, one by one {:?}", what, all, whole);
    let n = whole.len() as u64;
    for (from, limit) in pages {
        let (from, limit) = (*from as u64 % (n + 2), *limit as u64 % max_page);
        let got = obj(&list(json!({"from_index": from, "limit": limit})));
        let want = limit.min(n.saturating_sub(from));
        ensure!(got.len() as u64 == want && got.iter().all(|(k, v)| whole.get(k) == Some(v)), "page", "{} from {} limit {} of {} gives {:?}, all are {:?}", what, from, limit, n, got, whole);
        // the rest of the pages
        if limit > 0 {
            let mut seen: Map = BTreeMap::new();
            let mut at = 0;
            let mut count = 0;
            while at < n {
                let p = obj(&list(json!({"from_index": at, "limit": limit})));
                count += p.len();
                seen.extend(p);
                at += limit;
            }
            ensure!(seen == *whole && count == whole.len(), "page", "{} in pages of {} gives {:?} ({} entries), all are {:?}", what, limit, seen, count, whole);
        }
        // only one of the bounds given
        let head = obj(&list(json!({ "limit": limit })));
        let tail = obj(&list(json!({ "from_index": from })));
        ensure!(head.len() as u64 == limit.min(n) && tail.len() as u64 == n.saturating_sub(from), "page", "{}: {} entries with limit {} alone, {} from {} alone, of {}", what, head.len(), limit, tail.len(), from, n);
    }
    Ok(())
}

fn look(c: &Look, st: &mut Stats) -> Res {
    let mut e = Ex::with(&c.h.setup);
    for op in &c.h.ops {
        e.run(op, true);
    }
    for (t, hop) in &c.lost {
        for x in 0..8 {
            e.run(&Op::Fault(Fault::Blocked(x, 4, true)), true);
        }
        e.run(&Op::Instant { who: 4, path: Path { tok: *t, hops: vec![*hop], split: 0, bad: 0 }, a: Amt::Frac(300), refer: false, to: 0, echo: false, skip: 0, by_out: false }, true);
    }
    e.w.drain();
    let mut k = Kept::new(&c.h.setup);
    for s in &c.sets {
        k.apply(&mut e, s);
    }
    if c.full && !k.twap.is_empty() {
        for _ in 0..60 {
            e.w.advance(720);
            for p in &k.twap {
                e.w.tx(BOT, EX, "sync_pool_twap_record", json!({ "pool_id": p }), 0);
            }
        }
        e.sync_prices();
    }
    e.w.advance(c.wait as u64);
    pools(&e, c, &k, st)?;
    accounts(&e, c, st)?;
    settings(&e, c, &k, st)?;
    st.hit();
    Ok(())
}

fn pools(e: &Ex, c: &Look, k: &Kept, st: &mut Stats) -> Res {
    let n = num(&e.v("get_number_of_pools", json!({}))) as u64;
    ensure!(n == POOLS as u64, "count", "{} pools", n);
    let one: Vec<Value> = (0..n).map(|p| e.v("get_pool", json!({ "pool_id": p }))).collect();
    let det: Vec<Value> = (0..n).map(|p| e.v("get_pool_detail_info", json!({ "pool_id": p }))).collect();
    let vol: Vec<Value> = (0..n).map(|p| e.v("get_pool_volumes", json!({ "pool_id": p }))).collect();
    let picks: Vec<u64> = c.picks.iter().map(|x| *x as u64 % n).collect();
    let pick = |v: &[Value]| Value::Array(picks.iter().map(|i| v[*i as usize].clone()).collect());
    for (m, by, v) in [("get_pools", "get_pool_by_ids", &one), ("get_pool_detail_infos", "get_pool_detail_info_by_ids", &det), ("list_pool_volumes", "get_pool_volumes_by_ids", &vol)] {
        for (from, limit) in c.pages.iter().chain([(0u8, 200u8), (0, n as u8)].iter()) {
            let (from, limit) = (*from as usize % (n as usize + 3), *limit as usize);
            let want = if from >= v.len() { json!([]) } else { json!(v[from..(from + limit).min(v.len())]) };
            let got = e.v(m, json!({"from_index": from, "limit": limit}));
            ensure!(got == want, "page", "{} from {} limit {} gives {}, one by one {}", m, from, limit, got, want);
        }
        let got = e.v(by, json!({ "pool_ids": picks }));
        ensure!(got == pick(v), "by-ids", "{} of {:?} gives {}, one by one {}", by, picks, got, pick(v));
    }
    for p in 0..n {
        let s = parse_pool(&det[p as usize]);
        let d = det[p as usize].as_object().unwrap().values().next().unwrap().clone();
        let o = &one[p as usize];
        ensure!(
            o["pool_kind"] == s.kind && o["token_account_ids"] == d["token_account_ids"] && o["amounts"] == d["amounts"] && o["total_fee"] == d["total_fee"] && o["shares_total_supply"] == d["shares_total_supply"] && o["amp"].as_u64().unwrap() == s.amp,
            "detail", "pool {}: {} and in detail {}", p, o, d
        );
        for (m, kind) in [("get_stable_pool", s.stable()), ("get_rated_pool", s.rated()), ("get_degen_pool", s.degen())] {
            let v = e.tv(m, json!({ "pool_id": p }));
            ensure!(v.is_ok() == kind && (!kind || v.as_ref().unwrap() == &d), "kind", "{} of pool {} ({}): {:?}, in detail {}", m, p, s.kind, v, d);
        }
        if !s.simple() {
            let want: Vec<u128> = (0..s.tokens.len()).map(|i| s.from_c(i, s.c_amounts[i])).collect();
            ensure!(want == s.amounts, "units", "pool {} holds {:?} of its tokens with decimals {:?}, reported as {:?}", p, s.c_amounts, s.decimals, s.amounts);
        }
        let fee = e.v("get_pool_fee", json!({ "pool_id": p }));
        ensure!(num(&fee) == s.fee as u128, "fee", "pool {}: fee {} and {}", p, fee, s.fee);
        let id = format!(":{}", p);
        let t = [num(&e.v("get_pool_total_shares", json!({ "pool_id": p }))), num(&e.v("mft_total_supply", json!({ "token_id": id })))];
        ensure!(t == [s.supply; 2], "supply", "pool {}: {} shares, but reported {:?}", p, s.supply, t);
        let m = e.v("mft_metadata", json!({ "token_id": id }));
        let share_dec = if s.stable() { 18 } else { 24 };
        ensure!(num(&m["decimals"]) == share_dec && m["name"] == format!("ref-pool-{}", p) && m["symbol"] == format!("REF-POOL-{}", p), "metadata", "pool {}: {}", p, m);
        // what a share is worth
        let price = e.tv("get_pool_share_price", json!({ "pool_id": p }));
        if s.simple() {
            ensure!(price.is_err(), "share-price", "pool {} reports a price of its shares: {:?}", p, price);
        } else {
            let d = if s.stable() { Ok(s.c_amounts.iter().map(|x| b(*x)).sum()) } else { s.inv(&s.c_amounts) };
            if let Ok(d) = d {
                let want = if s.supply == 0 { Some(100_000_000) } else { big_u128(&(d * b(100_000_000) / b(s.supply))) };
                if let Some(want) = want {
                    ensure!(price.is_ok() && num(price.as_ref().unwrap()) == want, "share-price", "a share of pool {} with {:?} at {:?} and {} shares is worth {}, reported {:?}", p, s.c_amounts, s.rates, s.supply, want, price);
                    st.label("share prices");
                }
            }
        }
        // whether its rates and prices are valid
        if s.degen() {
            let l = e.v("list_degen_tokens", json!({}));
            let ok = s.tokens.iter().all(|t| l[t]["is_price_valid"] == true);
            let v = e.tv("get_degen_pool_tvl", json!({ "pool_id": p }));
            ensure!(v.is_ok() == ok, "validity", "pool {} with prices {}: value {:?}", p, l, v);
            for (i, t) in s.tokens.iter().enumerate() {
                ensure!(num(&l[t]["degen_price"]) == s.rates[i], "price", "{} has price {} and {} in pool {}", t, l[t], s.rates[i], p);
            }
            st.label(if ok { "valid prices" } else { "expired prices" });
        }
        if s.rated() {
            let l = e.v("list_rated_tokens", json!({}));
            let ok = s.tokens.iter().all(|t| l.get(t).map_or(true, |r| r["is_valid"] == true));
            if s.supply > 0 {
                let v = e.tv("get_return", json!({"pool_id": p, "token_in": s.tokens[0], "amount_in": units(&s.tokens[0], 1).to_string(), "token_out": s.tokens[1]}));
                ensure!(ok || v.is_err(), "validity", "pool {} with rates {} still quotes {:?}", p, l, v);
                let expired = v.as_ref().err().map_or(false, |m| m.contains("E120") || m.to_lowercase().contains("rate"));
                ensure!(!ok || !expired, "validity", "pool {} with rates {} does not quote: {:?}", p, l, v);
            }
            for (i, t) in s.tokens.iter().enumerate() {
                let want = l.get(t).map_or(pow10(24), |r| num(&r["rate_price"]));
                ensure!(want == s.rates[i], "rate", "{} has rate {} and {} in pool {}", t, want, s.rates[i], p);
            }
            st.label(if ok { "valid rates" } else { "expired rates" });
        }
    }
    // the volumes once more, as everything else in the harness reads them
    let v = volumes(e, n as usize);
    for p in 0..n as usize {
        let s = parse_pool(&det[p]);
        for (i, x) in vol[p].as_array().unwrap().iter().enumerate() {
            ensure!(x["input"].as_str().unwrap() == v[p][i].0.to_string() && x["output"].as_str().unwrap() == v[p][i].1.to_string(), "volumes", "pool {}: {} and {:?}", p, x, v[p][i]);
        }
        ensure!(vol[p].as_array().unwrap().len() == s.tokens.len(), "volumes", "pool {} reports {} volumes", p, vol[p]);
    }
    // time-weighted contents and limits
    let mut tw: Map = BTreeMap::new();
    for p in 0..n {
        let v = e.v("get_pool_twap_info_view", json!({ "pool_id": p }));
        ensure!(v.is_null() != k.twap.contains(&p), "record", "pool {} is {} recorded: {}", p, if k.twap.contains(&p) { "" } else { "not" }, v);
        if !v.is_null() {
            tw.insert(p.to_string(), v);
        }
    }
    map_pages(&|a| e.v("list_pool_twap_info_view", a), &tw, "list_pool_twap_info_view", &c.pages, 12)?;
    let mut lim: Map = BTreeMap::new();
    for p in 0..n {
        let v = e.v("get_pool_limit_by_pool_id", json!({ "pool_id": p }));
        let got = if v.is_null() { None } else { Some(num(&v["DegenPoolLimit"]["Current"]["tvl_limit"])) };
        ensure!(got == k.limit.get(&p).copied(), "limit", "pool {} has limit {:?}, reported {}", p, k.limit.get(&p), v);
        if !v.is_null() {
            lim.insert(p.to_string(), v);
        }
    }
    map_pages(&|a| e.v("get_pool_limit_paged", a), &lim, "get_pool_limit_paged", &c.pages, 5)?;
    // contents per share for the lending market
    let reg: Vec<u64> = picks.iter().cloned().filter(|p| k.twap.contains(p)).collect();
    if let Ok(got) = e.tv("get_unit_lpt_assets", json!({ "pool_ids": reg })) {
        let mut want: Map = BTreeMap::new();
        for p in &reg {
            let v = e.v("get_unit_share_twap_token_amounts", json!({ "pool_id": p }));
            if !v.is_null() {
                let s = parse_pool(&det[*p as usize]);
                let t: Vec<Value> = s.tokens.iter().zip(v.as_array().unwrap()).map(|(t, a)| json!({"token_id": t, "amount": a})).collect();
                want.insert(format!("shadow_ref_v1-{}", p), json!({"timestamp": e.w.now.to_string(), "decimals": if s.stable() { 18 } else { 24 }, "tokens": t}));
            }
        }
        ensure!(got.as_object().unwrap().len() == want.len(), "unit-assets", "{:?}: {} and {:?}", reg, got, want);
        for (id, w) in &want {
            let g = &got[id];
            ensure!(g["tokens"] == w["tokens"] && g["decimals"] == w["decimals"] && g["timestamp"].as_u64().map(|x| x.to_string()).or(g["timestamp"].as_str().map(|x| x.to_string())) == Some(e.w.now.to_string()), "unit-assets", "{}: {} instead of {}", id, g, w);
            st.label("unit assets");
        }
        // all in one
        for who in USERS {
            for (acc, ids) in [(true, true), (true, false), (false, true), (false, false)] {
                let got = e.v("batch_views", json!({"account_id": if acc { json!(who) } else { json!(null) }, "pool_ids": if ids { json!(reg) } else { json!(null) }}));
                let x = if acc { e.v("get_shadow_records", json!({ "account_id": who })) } else { json!(null) };
                let y = if ids { e.v("get_unit_lpt_assets", json!({ "pool_ids": reg })) } else { json!(null) };
                let z = if acc && ids { e.v("get_pool_shares_batch", json!({"pool_ids": reg, "account_id": who})) } else { json!(null) };
                ensure!(got == json!([x, y, z]), "batch", "batch_views({}, {:?}) gives {}, one by one {}", who, reg, got, json!([x, y, z]));
            }
        }
    }
    Ok(())
}

fn accounts(e: &Ex, c: &Look, st: &mut Stats) -> Res {
    let n = POOLS as u64;
    let picks: Vec<u64> = c.picks.iter().map(|x| *x as u64 % n).collect();
    for who in HOLDERS {
        let a = json!({ "account_id": who });
        // deposits
        let dep = obj(&e.v("get_deposits", a.clone()));
        let on = |extra: Value| {
            let mut o = extra;
            o["account_id"] = json!(who);
            o
        };
        for t in TOKENS {
            let x = e.v("get_deposit", on(json!({"token_id": t.id})));
            let y = dep.get(t.id).cloned().unwrap_or(json!("0"));
            let z = e.v("mft_balance_of", on(json!({"token_id": t.id})));
            ensure!(x == y && z == y, "deposit", "{} of {}: {} alone, {} as multi-token, {} in the list", t.id, who, x, z, y);
            ensure!(e.v("mft_has_registered", on(json!({"token_id": t.id}))) == json!(false), "registered", "{} has shares in {}", who, t.id);
        }
        map_pages(&|x| e.v("get_tokens_paged", on(x)), &dep, "get_tokens_paged", &c.pages, 10)?;
        let w = strings(&e.v("get_user_whitelisted_tokens", a.clone()), "get_user_whitelisted_tokens")?;
        ensure!(w == dep.keys().cloned().collect(), "registrations", "{} has registered {:?} but deposits {:?}", who, w, dep);
        // lost and found
        let lost = obj(&e.v("list_lostfound_tokens", a.clone()));
        for t in TOKENS {
            let x = e.v("get_lostfound_token", on(json!({"token_id": t.id})));
            ensure!(x == lost.get(t.id).cloned().unwrap_or(json!("0")), "lost", "{} of {}: {} alone, {:?} in the list", t.id, who, x, lost);
        }
        map_pages(&|x| e.v("list_lostfound_tokens", on(x)), &lost, "list_lostfound_tokens", &c.pages, 4)?;
        if !lost.is_empty() {
            st.label("lost and found listed");
        }
        // shares
        for p in 0..n {
            let x = e.v("get_pool_shares", on(json!({ "pool_id": p })));
            let y = e.v("mft_balance_of", on(json!({"token_id": format!(":{}", p)})));
            ensure!(x == y, "shares", "{} has {} shares of pool {}, as multi-token {}", who, x, p, y);
            let r = e.v("mft_has_registered", on(json!({"token_id": format!(":{}", p)})));
            ensure!(r == json!(true) || num(&x) == 0, "registered", "{} holds {} shares of pool {} without being registered", who, x, p);
        }
        let x = e.v("get_pool_shares_batch", on(json!({ "pool_ids": picks })));
        let y: Vec<Value> = picks.iter().map(|p| e.v("get_pool_shares", on(json!({ "pool_id": p })))).collect();
        ensure!(x == json!(y), "shares", "shares of {} in {:?}: {} and {:?}", who, picks, x, y);
        // storage
        let s = e.v("get_user_storage_state", a.clone());
        let bal = e.v("storage_balance_of", a.clone());
        let basic = e.v("get_account_basic_info", a.clone());
        ensure!(s.is_null() == bal.is_null() && s.is_null() == basic.is_null(), "registered", "{}: {} {} {}", who, s, bal, basic);
        if !s.is_null() {
            let (d, u) = (num(&s["deposit"]), num(&s["usage"]));
            ensure!(num(&bal["total"]) == d && num(&bal["available"]) == d.saturating_sub(u) && num(&basic["near_amount"]) == d, "storage", "{}: {} {} {}", who, s, bal, basic);
            let want = (102 + 148 * dep.len() as u128) * pow10(19);
            ensure!(u == want, "storage", "{} with {} tokens uses {}, reported {}", who, dep.len(), want, u);
        } else {
            ensure!(dep.is_empty() && obj(&e.v("get_shadow_records", a.clone())).is_empty(), "registered", "{} is not registered but has {:?}", who, dep);
        }
    }
    let bounds = e.v("storage_balance_bounds", json!({}));
    ensure!(num(&bounds["min"]) == 102 * pow10(19) && bounds["max"].is_null(), "storage", "{}", bounds);
    Ok(())
}

fn settings(e: &Ex, c: &Look, k: &Kept, _st: &mut Stats) -> Res {
    for (m, want) in [("get_frozenlist_tokens", &k.frozen), ("get_whitelisted_tokens", &k.white), ("get_guardians", &k.guards), (ECHO[0].0, &k.echo[0]), (ECHO[1].0, &k.echo[1]), (ECHO[2].0, &k.echo[2])] {
        let got = strings(&e.v(m, json!({})), m)?;
        ensure!(got == *want, "setting", "{}: {:?} instead of {:?}", m, got, want);
    }
    let refer: Map = k.refer.iter().map(|(a, x)| (a.clone(), json!(*x as u64))).collect();
    map_pages(&|a| e.v("list_referrals", a), &refer, "list_referrals", &c.pages, 9)?;
    let m = e.v("metadata", json!({}));
    ensure!(
        strings(&m["guardians"], "metadata")? == k.guards && strings(&m["auto_whitelisted_postfix"], "metadata")? == k.postfix && m["owner"] == OWNER && e.v("get_owner", json!({})) == OWNER && m["boost_farm_id"] == FARM && m["burrowland_id"] == BURROW
            && num(&m["pool_count"]) == POOLS as u128 && m["state"] == "Running" && num(&m["admin_fee_bps"]) == c.h.setup.admin_fee as u128 && m["wnear_id"] == WRAP && m["version"] == e.v("version", json!({})) && num(&m["cumulative_info_record_interval_sec"]) == 720,
        "metadata", "{}", m
    );
    let rated: BTreeSet<String> = obj(&e.v("list_rated_tokens", json!({}))).into_keys().collect();
    ensure!(rated == k.rated, "rated", "{:?} instead of {:?}", rated, k.rated);
    // degen tokens
    let all = e.v("list_degen_tokens", json!({}));
    let ids: Vec<&str> = c.picks.iter().map(|x| tok(*x as usize % 8).id).collect();
    let some = e.v("batch_get_degen_tokens", json!({ "token_ids": ids }));
    let want: Map = ids.iter().map(|t| (t.to_string(), all.get(*t).cloned().unwrap_or(json!(null)))).collect();
    ensure!(obj(&some) == want, "degen", "batch_get_degen_tokens of {:?} gives {}, all are {}", ids, some, all);
    let known: BTreeSet<String> = obj(&all).into_keys().collect();
    ensure!(known == [WRAP, "eth.bridge.near", "usdc.near", "dai.near"].iter().map(|x| x.to_string()).collect(), "degen", "{}", all);
    for (t, v) in obj(&all) {
        let ok = if t == "dai.near" { v["price_identifier"] == PYTH_ID && v["decimals"].is_null() } else { v["price_identifier"].is_null() && num(&v["decimals"]) == dec_of(&t) as u128 };
        ensure!(ok, "degen", "{}: {}", t, v);
        let age = e.w.now - num(&v["last_update_ts"]) as u64;
        ensure!((v["is_price_valid"] == true) == (age <= 3_600_000_000_000), "validity", "{} was updated {} ns ago: {}", t, age, v);
    }
    Ok(())
}

// ---------------------------------------------------------------- C48

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FLook {
    h: FHist,
    pages: Vec<(u8, u8)>,
}
struct Views {
    pages: Vec<(u8, u8)>,
}
fn arr_pages(list: &dyn Fn(Value) -> Value, key: &str, want: &Map, what: &str, pages: &[(u8, u8)]) -> Result<Vec<Value>, Viol> {
    let all = list(json!({"from_index": 0, "limit": 1000})).as_array().unwrap().clone();
    let m: Map = all.iter().map(|v| (v[key].as_str().unwrap().to_string(), v.clone())).collect();
    ensure!(m.len() == all.len() && m == *want, "list", "{} lists {:?}, one by one {:?}", what, all, want);
    for (from, limit) in pages {
        let (from, limit) = (*from as usize % (all.len() + 2), *limit as usize % 8);
        let got = list(json!({"from_index": from, "limit": limit}));
        let part = if from >= all.len() { json!([]) } else { json!(all[from..(from + limit).min(all.len())]) };
        ensure!(got == part, "page", "{} from {} limit {} gives {}, the whole list {:?}", what, from, limit, got, all);
    }
    Ok(all)
}
/// pages of a map listing whose bounds are both required
fn both_pages(list: &dyn Fn(Value) -> Value, whole: &Map, what: &str, pages: &[(u8, u8)]) -> Res {
    let full = |a: Value| {
        let from = a.get("from_index").and_then(|x| x.as_u64()).unwrap_or(0);
        let limit = a.get("limit").and_then(|x| x.as_u64()).unwrap_or(1000);
        list(json!({"from_index": from, "limit": limit}))
    };
    map_pages(&full, whole, what, pages, 6)
}
fn farm_views(e: &Fx, ids: &BTreeSet<String>, pages: &[(u8, u8)], st: &mut Stats) -> Res {
    let (mut live, mut old): (Map, Map) = Default::default();
    for id in ids {
        let a = json!({ "farm_id": id });
        let (x, y) = (e.v("get_farm", a.clone()), e.v("get_outdated_farm", a));
        ensure!(x.is_null() != y.is_null(), "farm", "{} is live {} and outdated {}", id, x, y);
        for (v, m) in [(x, &mut live), (y, &mut old)] {
            if !v.is_null() {
                ensure!(v["farm_id"] == *id, "farm", "{} is reported as {}", id, v);
                m.insert(id.clone(), v);
            }
        }
    }
    let l = arr_pages(&|a| e.v("list_farms", a), "farm_id", &live, "list_farms", pages)?;
    let o = arr_pages(&|a| e.v("list_outdated_farms", a), "farm_id", &old, "list_outdated_farms", pages)?;
    let cnt = (num(&e.v("get_number_of_farms", json!({}))), num(&e.v("get_number_of_outdated_farms", json!({}))));
    ensure!(cnt == (l.len() as u128, o.len() as u128), "count", "{:?} farms, listed {} and {}", cnt, l.len(), o.len());
    if !o.is_empty() {
        st.label("outdated farms");
    }
    // seeds
    let mut seeds: Map = BTreeMap::new();
    let mut amounts: Map = BTreeMap::new();
    for s in SEEDS.iter().chain(["nothing.near"].iter()) {
        let v = e.v("get_seed_info", json!({ "seed_id": s }));
        let of: BTreeSet<&String> = live.iter().filter(|(_, f)| f["seed_id"] == *s).map(|x| x.0).collect();
        if v.is_null() {
            ensure!(of.is_empty(), "seed", "{} is unknown but has {:?}", s, of);
            continue;
        }
        ensure!(v["seed_id"] == *s && v["seed_type"] == if s.contains('@') { "MFT" } else { "FT" }, "seed", "{} is reported as {}", s, v);
        let list = strings(&v["farms"], "get_seed_info")?;
        ensure!(list.iter().collect::<BTreeSet<_>>() == of, "seed", "{} lists farms {:?}, but there are {:?}", s, list, of);
        let by = e.v("list_farms_by_seed", json!({ "seed_id": s }));
        let by: Map = by.as_array().unwrap().iter().map(|v| (v["farm_id"].as_str().unwrap().to_string(), v.clone())).collect();
        ensure!(by == live.iter().filter(|(_, f)| f["seed_id"] == *s).map(|(a, f)| (a.clone(), f.clone())).collect(), "seed", "{}: by seed {:?}, all {:?}", s, by, live);
        amounts.insert(s.to_string(), v["amount"].clone());
        seeds.insert(s.to_string(), norm(&v));
    }
    both_pages(&|a| e.v("list_seeds_info", a), &seeds, "list_seeds_info", pages)?;
    both_pages(&|a| e.v("list_seeds", a), &amounts, "list_seeds", pages)?;
    let rewards = obj(&e.v("list_rewards_info", json!({"from_index": 0, "limit": 1000})));
    both_pages(&|a| e.v("list_rewards_info", a), &rewards, "list_rewards_info", pages)?;
    for f in live.values().chain(old.values()) {
        ensure!(num(&f["total_reward"]) == 0 || rewards.contains_key(f["reward_token"].as_str().unwrap()), "rewards", "{} pays {} but the reward tokens are {:?}", f["farm_id"], f["reward_token"], rewards);
    }
    let m = e.v("get_metadata", json!({}));
    let registered = PEOPLE.iter().filter(|p| !e.v("get_user_storage_state", json!({ "account_id": p })).is_null()).count();
    ensure!(
        num(&m["farm_count"]) == l.len() as u128 && num(&m["seed_count"]) == seeds.len() as u128 && num(&m["reward_count"]) == rewards.len() as u128 && num(&m["farmer_count"]) == registered as u128,
        "metadata", "{} with {} farms, {} seeds, {} reward tokens, {} farmers", m, l.len(), seeds.len(), rewards.len(), registered
    );
    for p in PEOPLE {
        let a = json!({ "account_id": p });
        let r = obj(&e.v("list_rewards", a.clone()));
        for t in REWARDS {
            let x = e.v("get_reward", json!({"account_id": p, "token_id": t}));
            ensure!(x == r.get(t).cloned().unwrap_or(json!("0")), "reward", "{} of {}: {} alone, {:?} in the list", t, p, x, r);
            if num(&x) > 0 {
                st.label("rewards listed");
            }
        }
        let s = e.v("get_user_storage_state", a.clone());
        let bal = e.v("storage_balance_of", a.clone());
        ensure!(s.is_null() == bal.is_null(), "storage", "{}: {} and {}", p, s, bal);
        if !s.is_null() {
            let (d, u) = (num(&s["deposit"]), num(&s["usage"]));
            ensure!(num(&bal["total"]) == d && num(&bal["available"]) == d.saturating_sub(u), "storage", "{}: {} and {}", p, s, bal);
        } else {
            let st = obj(&e.v("list_user_seeds", a));
            ensure!(r.is_empty() && st.is_empty(), "registered", "{} is not registered but has {:?} {:?}", p, r, st);
            for f in live.keys() {
                let x = e.v("get_unclaimed_reward", json!({"account_id": p, "farm_id": f}));
                ensure!(num(&x) == 0, "unclaimed", "{} is not registered but can claim {} from {}", p, x, f);
            }
        }
    }
    Ok(())
}
impl FWatch for Views {
    fn step(&mut self, e: &Fx, _x: Option<&Executed>, _a: &FSnap, b: &FSnap, st: &mut Stats) -> Res {
        let ids: BTreeSet<String> = b.farms.keys().chain(b.old.keys()).cloned().chain(e.ids.iter().cloned()).collect();
        let p = self.pages.remove(0);
        self.pages.push(p);
        farm_views(e, &ids, &self.pages[..1], st)?;
        if !b.farms.is_empty() {
            st.hit();
        }
        Ok(())
    }
}

pub fn defs() -> Vec<Def> {
    let pages = || prop::collection::vec((any::<u8>(), 0u8..24), 1..4);
    vec![
        def(
            "C30",
            "a generated history and generated changes of lists, limits, referrals and records; then every paged, batched, combined and single view of pools, accounts and settings is compared with each other, with the settings made and with the documented formulas; non-trivial: the comparison was made",
            600,
            15_000,
            move || {
                let ops: &[(u32, G)] = &[
                    (3, G::Add), (5, G::AddStable), (2, G::Remove), (3, G::RemoveBy), (6, G::Swap), (2, G::SwapOut), (3, G::Instant), (2, G::Zap), (2, G::Rates), (1, G::Ramp), (3, G::Shadow), (2, G::Deposit), (1, G::OwnerFees),
                    (3, G::Withdraw), (3, G::Reg), (2, G::Stor), (2, G::StorUnreg), (2, G::FaultTok), (1, G::MftPool), (1, G::MftTok), (1, G::MftReg), (2, G::Advance), (1, G::Liquidate),
                ];
                let k = || any::<u8>();
                let s = prop_oneof![
                    1 => (k(), prop::bool::weighted(0.7)).prop_map(|(a, b)| Set::Freeze(a, b)),
                    1 => (k(), prop::bool::weighted(0.6)).prop_map(|(a, b)| Set::White(a, b)),
                    3 => (k(), prop_oneof![1 => Just(None), 3 => (1u16..10_000).prop_map(Some)]).prop_map(|(a, b)| Set::Refer(a, b)),
                    1 => (k(), prop::bool::weighted(0.7)).prop_map(|(a, b)| Set::Guard(a, b)),
                    4 => (k(), prop::bool::weighted(0.8)).prop_map(|(a, b)| Set::Twap(a, b)),
                    2 => (k(), prop_oneof![1 => Just(None), 3 => any::<u32>().prop_map(Some)]).prop_map(|(a, b)| Set::Limit(a, b)),
                    1 => (k(), prop::bool::weighted(0.7)).prop_map(|(a, b)| Set::Postfix(a, b)),
                    1 => (k(), k(), prop::bool::weighted(0.7)).prop_map(|(a, b, c)| Set::Echo(a, b, c)),
                    1 => (k(), prop::bool::weighted(0.7)).prop_map(|(a, b)| Set::Rated(a, b)),
                ];
                let wait = prop_oneof![3 => Just(0u32), 2 => 3_590u32..3_610, 1 => 0u32..200_000];
                (hist(ops, 0..10), prop::collection::vec(s, 3..20), wait, pages(), prop::collection::vec(any::<u8>(), 0..6), prop::bool::weighted(0.3), prop::collection::vec((0u8..8, any::<u8>()), 0..3))
                    .prop_map(|(h, sets, wait, pages, picks, full, lost)| Look { h, sets, full, lost, wait, pages, picks })
                    .boxed()
            },
            look,
        ),
        def(
            "C48",
            "a generated farming history; after every receipt all lists, pages and single views of farms, seeds, rewards, stakes and storage are compared with each other and with the farms created; non-trivial: there was a farm",
            1_200,
            15_000,
            move || (fhist(5..25, true), pages()).prop_map(|(h, pages)| FLook { h, pages }).boxed(),
            |c: &FLook, st| fdrive(&c.h, &mut Views { pages: c.pages.clone() }, st).map(|_| ()),
        ),
    ]
}
