//! C15 (who may administer), C28 (what may be configured).
use super::forks::*;
use super::*;
use crate::chain::{GAS, NEAR};
use crate::ensure;
use crate::vm::PromiseRes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- C15

#[derive(Clone, Copy, Debug, PartialEq)]
enum Role {
    Owner,
    /// owner or guardian
    Team,
    Itself,
    Burrow,
}
struct M {
    name: &'static str,
    role: Role,
    args: Value,
    /// the deposit of a proper call; one yocto must be exact
    dep: u128,
    /// refused to everybody while paused
    gated: bool,
    /// the arguments are good in every state
    sure: bool,
    results: Option<Vec<PromiseRes>>,
}
fn price(t: &str) -> Value {
    json!({"asset_id": t, "price": {"multiplier": "70000", "decimals": 28}})
}
/// every administrative and internal entry point, with arguments that are good in the present state
fn methods(e: &Ex, v: u8) -> Vec<M> {
    use Role::*;
    let one = |name, role, args| M { name, role, args, dep: 1, gated: false, sure: true, results: None };
    let t = tok(v as usize).id;
    let meta = e.v("metadata", json!({}));
    let state = |name, s: &str, role| M { name, role, args: json!({ "state": s }), dep: 1, gated: false, sure: true, results: None };
    let paused = meta["state"] == "Paused";
    let (curve, degen) = ([3, 4, 5, 7, 8, 9][v as usize % 6], [5, 9][v as usize % 2]);
    let mut m = vec![
        one("set_owner", Owner, json!({"owner_id": actor(v)})),
        one("retrieve_unmanaged_token", Owner, json!({"token_id": t, "amount": "5"})),
        one("extend_guardians", Owner, json!({"guardians": [actor(v)]})),
        one("modify_wnear_id", Owner, json!({"wnear_id": "wrap.near"})),
        one("modify_admin_fee", Owner, json!({"admin_fee_bps": v})),
        one("unregister_rated_token", Owner, json!({"token_id": "stnear.near"})),
        one("update_degen_token", Owner, json!({"token_id": WRAP, "degen_type": {"PriceOracle": {"decimals": 24}}})),
        one("unregister_degen_token", Owner, json!({"token_id": WRAP})),
        one("unregister_degen_oracle_config", Owner, json!({"degen_oracle_config_key": "PriceOracleConfig"})),
        one("update_degen_oracle_config", Owner, json!({"degen_oracle_config": {"PythOracle": {"oracle_id": PYTH, "expire_ts": "1", "pyth_price_valid_duration_sec": v}}})),
        one("remove_client_echo_token_id_whitelist", Owner, json!({"token_ids": ["usdc.near"]})),
        one("remove_client_echo_sender_id_whitelist", Owner, json!({"sender_ids": ["alice.near"]})),
        one("remove_secure_sender_whitelist", Owner, json!({"sender_ids": [BOT]})),
        one("extend_auto_whitelisted_postfix", Team, json!({"postfixes": [".x.near"]})),
        one("remove_auto_whitelisted_postfix", Team, json!({"postfixes": [".bridge.near"]})),
        one("modify_boost_farm_id", Team, json!({"boost_farm_id": actor(v)})),
        one("modify_burrowland_id", Team, json!({"burrowland_id": actor(v)})),
        state("change_state", "Paused", Team),
        state("change_state", "Running", if paused { Owner } else { Team }),
        one("extend_whitelisted_tokens", Team, json!({"tokens": ["new.near"]})),
        one("remove_whitelisted_tokens", Team, json!({"tokens": ["usdc.near"]})),
        one("extend_frozenlist_tokens", Team, json!({"tokens": [t]})),
        one("insert_referral", Team, json!({"referral_id": "newref.near", "fee_bps": 10})),
        M { sure: false, ..one("update_referral", Team, json!({"referral_id": REFER, "fee_bps": 10})) },
        M { sure: false, ..one("remove_referral", Team, json!({"referral_id": REFER})) },
        one("modify_total_fee", Team, json!({"pool_id": v as usize % POOLS, "total_fee": v})),
        one("register_rated_token", Team, json!({"rate_type": "NEARX", "token_id": "nearx.near"})),
        one("register_degen_token", Team, json!({"token_id": "usn.near", "degen_type": {"PriceOracle": {"decimals": 24}}})),
        one("extend_client_echo_token_id_whitelist", Team, json!({"token_ids": ["usn.near"]})),
        one("extend_client_echo_sender_id_whitelist", Team, json!({"sender_ids": ["carol.near"]})),
        one("extend_secure_sender_whitelist", Team, json!({"sender_ids": ["carol.near"]})),
        one("modify_cumulative_info_record_interval_sec", Team, json!({"record_interval_sec": v})),
        M { sure: false, ..one("register_pool_twap_record", Team, json!({"pool_id": v as usize % POOLS})) },
        M { sure: false, ..one("unregister_pool_twap_record", Team, json!({"pool_id": v as usize % POOLS})) },
        M { sure: false, ..one("stable_swap_ramp_amp", Team, json!({"pool_id": curve, "future_amp_factor": e.pool(curve).amp + 1, "future_amp_time": (e.w.now + 200_000 * 1_000_000_000).to_string()})) },
        one("stable_swap_stop_ramp_amp", Team, json!({"pool_id": curve})),
        M { sure: false, ..one("add_degen_pool_limit", Team, json!({"pool_id": degen, "degen_pool_limit_info": {"tvl_limit": "1000"}})) },
        M { sure: false, ..one("update_degen_pool_limit", Owner, json!({"pool_id": degen, "degen_pool_limit_info": {"tvl_limit": "2000"}})) },
        M { sure: false, ..one("remove_pool_limit", Owner, json!({"pool_id": degen})) },
        M { dep: NEAR, ..one("add_stable_swap_pool", Team, json!({"tokens": ["usdc.near", "usn.near"], "decimals": [6, 24], "fee": 5, "amp_factor": 100})) },
        M { dep: NEAR, ..one("add_rated_swap_pool", Team, json!({"tokens": [WRAP, "linear.near"], "decimals": [24, 18], "fee": 5, "amp_factor": 100})) },
        M { dep: NEAR, ..one("add_degen_swap_pool", Team, json!({"tokens": ["usdc.near", WRAP], "decimals": [6, 24], "fee": 5, "amp_factor": 100})) },
    ];
    let guards: Vec<String> = meta["guardians"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    if let Some(g) = guards.get(v as usize % guards.len().max(1)) {
        m.push(one("remove_guardians", Owner, json!({ "guardians": [g] })));
    }
    // the owner's money
    let owner = meta["owner"].as_str().unwrap();
    let p = v as usize % POOLS;
    let s = e.shares_of(EX, p as u64);
    let n = e.pool(p).tokens.len();
    m.push(M { gated: true, sure: false, ..one("remove_exchange_fee_liquidity", Team, json!({"pool_id": p, "shares": s.to_string(), "min_amounts": us(&vec![0; n])})) });
    if let Some((t, a)) = e.deposits(owner).into_iter().find(|x| x.1 > 0) {
        m.push(M { gated: true, ..one("withdraw_owner_token", Team, json!({"token_id": t, "amount": a.to_string(), "skip_unwrap_near": true})) });
    }
    // settlement entry points, as continuations of calls that went this way or that
    let (good, bad) = (PromiseRes::Ok(b"\"0\"".to_vec()), PromiseRes::Failed);
    let cb = |name, args, results| M { name, role: Itself, args, dep: 0, gated: false, sure: false, results: Some(results) };
    let who = user(v);
    let r = if v & 1 == 0 { good.clone() } else { bad.clone() };
    let (pid, sh) = (0..POOLS).map(|p| (p, e.shares_of(who, p as u64))).find(|x| x.1 > 0).unwrap_or((0, 0));
    let sh = sh.max(1);
    m.push(cb("exchange_callback_post_withdraw", json!({"token_id": t, "sender_id": who, "amount": "1000"}), vec![r.clone()]));
    m.push(cb("exchange_callback_post_withdraw_near", json!({"sender_id": who, "amount": "1000"}), vec![r.clone()]));
    m.push(cb("mft_resolve_transfer", json!({"token_id": format!(":{}", pid), "sender_id": who, "receiver_id": user(v.wrapping_add(1)), "amount": sh.to_string()}), vec![r.clone()]));
    for a in ["ToFarming", "FromFarming", "ToBurrowland", "FromBurrowland"] {
        m.push(cb("callback_on_shadow", json!({"action": a, "sender_id": who, "pool_id": pid, "amount": sh.to_string(), "storage_fee": "0"}), vec![r.clone()]));
    }
    m.push(cb("callback_on_burrow_liquidation", json!({"sender_id": who, "pool_id": pid, "amount": sh.to_string()}), vec![r.clone()]));
    let ok = |v: Value| PromiseRes::Ok(v.to_string().into_bytes());
    m.push(cb("update_token_rate_callback", json!({"token_id": "stnear.near"}), vec![ok(json!("1500000000000000000000000"))]));
    let oracle = json!({"timestamp": e.w.now.to_string(), "recency_duration_sec": 60, "prices": [price(WRAP)]});
    m.push(cb("update_degen_token_price_callback", json!({"token_id": WRAP}), vec![ok(oracle.clone())]));
    m.push(cb("batch_update_degen_token_by_price_oracle_callback", json!({"token_id_decimals_map": {WRAP: 24}}), vec![ok(oracle)]));
    let pyth = json!({"price": "123456789", "conf": "1", "expo": -8, "publish_time": e.w.now / 1_000_000_000});
    m.push(cb("batch_update_degen_token_by_pyth_oracle_callback", json!({"price_id_token_id_map": {PYTH_ID: ["dai.near"]}}), vec![ok(json!({ PYTH_ID: pyth }))]));
    m.push(cb("migrate", json!({}), vec![]));
    // the lending market's
    for u in USERS {
        if let Some((p, l)) = e.locks_of(u).into_iter().find(|x| x.1 .1 > 0) {
            let n = e.pool(p as usize).tokens.len();
            m.push(M { name: "on_burrow_liquidation", role: Burrow, args: json!({"liquidator_account_id": user(v), "liquidation_account_id": u, "shadow_id": format!("shadow_ref_v1-{}", p), "liquidate_share_amount": (l.1 / 2 + 1).to_string(), "min_token_amounts": us(&vec![0; n])}), dep: 0, gated: false, sure: false, results: None });
        }
    }
    m
}
const CALLERS: [&str; 11] = [OWNER, GUARD, "alice.near", "bob.near", "carol.near", "dave.near", FARM, BURROW, EX, REFER, "mallory.near"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Calls {
    h: Hist,
    /// earlier changes of owner, guardians, peers and state
    chg: Vec<(u8, u8)>,
    calls: Vec<(u16, u8, u8, u8)>,
    /// somebody has locked shares with the lending market
    lock: Option<(u8, u16)>,
}
/// what a call did to the exchange: its raw storage and what it sends out
fn trace(e: &Ex) -> (BTreeMap<Vec<u8>, Vec<u8>>, String) {
    let out: Vec<String> = e.w.pending.iter().map(|r| format!("{} {:?}", r.receiver, r.actions)).collect();
    (e.w.wasm[EX].storage.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), out.join("; "))
}
fn access(c: &Calls, st: &mut Stats) -> Res {
    let mut e = state(&c.h);
    if let Some((pool, a)) = c.lock {
        e.run(&Op::Shadow { who: 3, pool, kind: 1, a: Some(Amt::Frac(a)), poor: false }, true);
    }
    let mut owner = OWNER.to_string();
    let mut guards: BTreeSet<String> = [GUARD.to_string()].into();
    let (mut burrow, mut paused) = (BURROW.to_string(), false);
    for (k, who) in &c.chg {
        let w = CALLERS[*who as usize % CALLERS.len()];
        let o = owner.clone();
        match k % 6 {
            0 => {
                e.must(&o, "set_owner", json!({ "owner_id": w }), 1);
                owner = w.into();
                st.label("owner changed");
            }
            1 => {
                e.must(&o, "extend_guardians", json!({ "guardians": [w] }), 1);
                guards.insert(w.into());
            }
            2 => {
                if let Some(g) = guards.iter().next().cloned() {
                    e.must(&o, "remove_guardians", json!({ "guardians": [g] }), 1);
                    guards.remove(&g);
                    st.label("guardian removed");
                }
            }
            3 => {
                e.must(&o, "modify_burrowland_id", json!({ "burrowland_id": w }), 1);
                burrow = w.into();
            }
            _ => {
                paused = k % 6 == 4;
                e.must(&o, "change_state", json!({"state": if paused { "Paused" } else { "Running" }}), 1);
            }
        }
    }
    for (mi, caller, d, v) in &c.calls {
        let ms = methods(&e, *v);
        let m = &ms[*mi as usize % ms.len()];
        let by: &str = match caller % 4 {
            0 => match m.role {
                Role::Owner => &owner,
                Role::Team => guards.iter().next().unwrap_or(&owner),
                Role::Itself => EX,
                Role::Burrow => &burrow,
            },
            _ => CALLERS[*caller as usize / 4 % CALLERS.len()],
        };
        let dep = if m.dep == 1 && d % 4 == 3 { [0, 2, NEAR][*d as usize / 4 % 3] } else { m.dep };
        let right = |by: &str| match m.role {
            Role::Owner => by == owner,
            Role::Team => by == owner || guards.contains(by),
            Role::Itself => by == EX,
            Role::Burrow => by == burrow,
        };
        let may = dep == m.dep && right(by);
        let go = |f: &mut Ex, by: &str, dep: u128| {
            f.w.near.entry(by.into()).or_insert(10 * NEAR);
            match &m.results {
                Some(r) => f.w.callback(by, EX, m.name, m.args.clone(), dep, r.clone()),
                None => f.w.tx(by, EX, m.name, m.args.clone(), dep),
            }
        };
        let before = trace(&e);
        let money = e.w.balance(EX);
        let mut f = e.clone();
        let proper = match m.role {
            Role::Owner | Role::Team => owner.clone(),
            Role::Itself => EX.into(),
            Role::Burrow => burrow.clone(),
        };
        let would = go(&mut f, &proper, m.dep);
        if m.sure && !(m.gated && paused) {
            ensure!(would.ok(), "authorised-refused", "{} by {} with deposit {} is refused: {:?} {}", m.name, proper, m.dep, would.result, m.args);
        }
        if m.gated && paused {
            ensure!(!would.ok(), "gated", "{} works while paused", m.name);
        }
        let mut q = e.clone();
        let r = go(&mut q, by, dep);
        if may {
            ensure!(r.ok() == would.ok(), "authorised-refused", "{} by {}: {:?}, by {}: {:?}", m.name, by, r.result, proper, would.result);
            let (x, y) = (trace(&q), trace(&f));
            // (a refund goes to whoever paid)
            ensure!(x.0 == y.0 && (m.dep > 1 || by == proper || x.1 == y.1), "depends-on-caller", "{} does something else by {} than by {}: {} / {}", m.name, by, proper, x.1, y.1);
            if r.ok() {
                st.label(&format!("{:?} call allowed", m.role));
            }
        } else {
            ensure!(!r.ok(), "unauthorised", "{} by {} (owner {}, guardians {:?}) with deposit {} is executed: {}", m.name, by, owner, guards, dep, m.args);
            ensure!(trace(&q) == before && q.w.balance(EX) == money, "refused-with-effect", "{} by {} is refused but changes the state", m.name, by);
            st.label(&format!("{:?} call refused{}", m.role, if would.ok() { "" } else { " (invalid anyway)" }));
            if would.ok() {
                st.hit();
            }
        }
        // nobody else can do it either
        for by in CALLERS.iter().filter(|x| !right(x)) {
            let mut q = e.clone();
            let r = go(&mut q, by, m.dep);
            ensure!(!r.ok(), "unauthorised", "{} by {} (owner {}, guardians {:?}, lending market {}) is executed: {}", m.name, by, owner, guards, burrow, m.args);
            ensure!(trace(&q) == before && q.w.balance(EX) == money, "refused-with-effect", "{} by {} is refused but changes the state", m.name, by);
        }
        if would.ok() {
            st.label(&format!("{} works for the right account only", m.name));
        }
    }
    // upgrading
    let code = vec![0u8, 97, 115, 109, 1, 0, 0, 0];
    for by in CALLERS {
        if by != owner && c.calls[0].3 & 7 == 0 {
            let mut q = e.clone();
            let before = trace(&q);
            q.w.near.entry(by.into()).or_insert(10 * NEAR);
            let g = q.w.prepaid_gas;
            q.w.prepaid_gas = GAS;
            let r = q.w.tx_raw(by, EX, "upgrade", code.clone(), 0);
            q.w.prepaid_gas = g;
            ensure!(!r.ok() && trace(&q) == before, "unauthorised", "{} can replace the contract's code", by);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Set {
    Pool { kind: u8, toks: Vec<u8>, decs: Vec<u8>, short: bool, fee: u32, amp: u64, poor: bool },
    AdminFee(u32),
    TotalFee(u8, u32),
    Referral(u8, u8, u32),
    Limit(u8, u8, u64),
    Rated(u8, u8, u8, u32),
    Degen(u8, u8, u8),
    Config(u8, u8, u64),
    List(u8, bool, Vec<u8>),
    Peer(u8, u8),
    State(bool),
    Interval(u32),
    Twap(u8, bool),
}
type Strs = BTreeSet<String>;
#[derive(Clone, Debug, PartialEq, Default)]
struct Cfg {
    admin_fee: u64,
    interval: u64,
    running: bool,
    peers: Vec<String>,
    /// guardians, postfixes, whitelist, frozen, echo tokens, echo senders, secure senders
    lists: Vec<Strs>,
    referrals: BTreeMap<String, u64>,
    /// token -> (type, extra info)
    rated: BTreeMap<String, (String, Value)>,
    /// token -> (type, decimals or identifier)
    degen: Option<BTreeMap<String, (String, Value)>>,
    configs: BTreeMap<String, Value>,
    limits: BTreeMap<u64, u128>,
    twap: BTreeSet<u64>,
    /// kind, tokens, decimals, fee, amp
    pools: Vec<(String, Vec<String>, Vec<u64>, u64, u64)>,
}
fn strs(v: &Value) -> Strs {
    v.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect()
}
const ECHO: [&str; 3] = ["client_echo_token_id", "client_echo_sender_id", "secure_sender"];
fn read(e: &Ex) -> Cfg {
    let m = e.v("metadata", json!({}));
    let mut lists = vec![strs(&m["guardians"]), strs(&m["auto_whitelisted_postfix"]), strs(&e.v("get_whitelisted_tokens", json!({}))), strs(&e.v("get_frozenlist_tokens", json!({})))];
    for l in ECHO {
        lists.push(strs(&e.v(&format!("get_{}_whitelist", l), json!({}))));
    }
    let obj = |v: Value| v.as_object().cloned().unwrap_or_default();
    let degen = e.w.view(EX, "list_degen_tokens", json!({})).ok().map(|v| obj(v).into_iter().map(|(k, x)| (k, (x["degen_type"].as_str().unwrap().to_string(), if x["decimals"].is_null() { x["price_identifier"].clone() } else { x["decimals"].clone() }))).collect());
    Cfg {
        admin_fee: m["admin_fee_bps"].as_u64().unwrap(),
        interval: m["cumulative_info_record_interval_sec"].as_u64().unwrap(),
        running: m["state"] == "Running",
        peers: ["owner", "boost_farm_id", "burrowland_id", "wnear_id"].iter().map(|k| m[*k].as_str().unwrap_or("").to_string()).collect(),
        lists,
        referrals: obj(e.v("list_referrals", json!({}))).into_iter().map(|(k, v)| (k, v.as_u64().unwrap())).collect(),
        rated: obj(e.v("list_rated_tokens", json!({}))).into_iter().map(|(k, v)| (k, (v["rate_type"].as_str().unwrap().to_string(), v["extra_info"].as_str().map_or(Value::Null, |s| serde_json::from_str(s).unwrap_or(Value::Null))))).collect(),
        degen,
        configs: obj(e.v("list_degen_oracle_configs", json!({}))).into_iter().collect(),
        limits: obj(e.v("get_pool_limit_paged", json!({}))).into_iter().map(|(k, v)| (k.parse().unwrap(), num(&v["DegenPoolLimit"]["Current"]["tvl_limit"]))).collect(),
        twap: obj(e.v("list_pool_twap_info_view", json!({}))).into_iter().map(|(k, _)| k.parse().unwrap()).collect(),
        pools: e.pools().iter().map(|p| (p.kind.clone(), p.tokens.clone(), p.decimals.iter().map(|x| *x as u64).collect(), p.fee as u64, p.amp)).collect(),
    }
}
const NAMES: [&str; 12] = ["usdc.near", "dai.near", "wrap.near", "alice.near", "bob.near", ".bridge.near", ".x.near", "*.x.near", "*x.near", "*", "guard.near", "receiver.near"];
fn sfrax(k: u8, secs: u32) -> Value {
    if k & 1 == 0 {
        json!({"PriceOracle": {"oracle_id": ORACLE, "base_contract_id": "usdc.near", "maximum_recency_duration_sec": 60, "maximum_staleness_duration_sec": secs}})
    } else {
        json!({"PythOracle": {"oracle_id": PYTH, "base_price_identifier": PYTH_ID, "rate_price_identifier": PYTH_ID, "pyth_price_valid_duration_sec": secs}})
    }
}
impl Set {
    /// the call, whether it must be accepted, and the settings it leads to
    fn plan(&self, e: &Ex, m: &Cfg) -> Option<(Call, bool, Cfg)> {
        let mut n = m.clone();
        let mk = |method: &str, args: Value, dep: u128| Call { signer: m.peers[0].clone(), to: EX.into(), method: method.into(), args, deposit: dep };
        let (c, ok) = match self {
            Set::Pool { kind, toks, decs, short, fee, amp, poor } => {
                // (the views of a degen pool need a price for each of its tokens)
                let priced = [WRAP, "eth.bridge.near", "usdc.near", "dai.near"];
                let ids: Vec<String> = toks.iter().map(|t| if kind % 4 == 3 { priced[*t as usize % 4] } else { tok(*t as usize).id }.to_string()).collect();
                let distinct = ids.iter().collect::<BTreeSet<_>>().len() == ids.len();
                let dep = if *poor { 1 } else { NEAR };
                let k = *kind as usize % 4;
                let mut d: Vec<u64> = ids.iter().enumerate().map(|(i, _)| decs[i % decs.len()] as u64).collect();
                if *short && k > 0 {
                    d.pop();
                }
                let mut ok = distinct && *fee < 10_000 && !poor;
                let (name, shown) = [("add_simple_pool", "SIMPLE_POOL"), ("add_stable_swap_pool", "STABLE_SWAP"), ("add_rated_swap_pool", "RATED_SWAP"), ("add_degen_swap_pool", "DEGEN_SWAP")][k];
                let mut a = json!({"tokens": ids, "fee": fee});
                if k == 0 {
                    ok &= ids.len() == 2 && m.running;
                } else {
                    a["decimals"] = json!(d);
                    a["amp_factor"] = json!(amp);
                    ok &= d.len() == ids.len() && d.iter().all(|x| (1..=24).contains(x)) && (1..=1_000_000).contains(amp);
                }
                n.pools.push((shown.into(), ids, if k == 0 { vec![] } else { d }, *fee as u64, if k == 0 { 0 } else { *amp }));
                (mk(name, a, dep), ok)
            }
            Set::AdminFee(x) => {
                n.admin_fee = *x as u64;
                (mk("modify_admin_fee", json!({ "admin_fee_bps": x }), 1), *x <= 8000)
            }
            Set::TotalFee(p, x) => {
                let p = *p as usize % 16;
                let ok = p < m.pools.len() && *x < 10_000;
                if ok {
                    n.pools[p].3 = *x as u64;
                }
                (mk("modify_total_fee", json!({"pool_id": p, "total_fee": x}), 1), ok)
            }
            Set::Referral(k, who, x) => {
                let w = [REFER, "alice.near", "bob.near"][*who as usize % 3].to_string();
                let has = m.referrals.contains_key(&w);
                let fits = *x > 0 && *x < 10_000;
                match k % 3 {
                    0 => {
                        n.referrals.insert(w.clone(), *x as u64);
                        (mk("insert_referral", json!({"referral_id": w, "fee_bps": x}), 1), fits && !has)
                    }
                    1 => {
                        n.referrals.insert(w.clone(), *x as u64);
                        (mk("update_referral", json!({"referral_id": w, "fee_bps": x}), 1), fits && has)
                    }
                    _ => {
                        n.referrals.remove(&w);
                        (mk("remove_referral", json!({ "referral_id": w }), 1), has)
                    }
                }
            }
            Set::Limit(k, p, x) => {
                let p = *p as u64 % 16;
                let has = m.limits.contains_key(&p);
                let degen = m.pools.get(p as usize).map_or(false, |x| x.0 == "DEGEN_SWAP");
                if k % 3 == 2 {
                    n.limits.remove(&p);
                    (mk("remove_pool_limit", json!({ "pool_id": p }), 1), has)
                } else {
                    n.limits.insert(p, *x as u128);
                    (mk(if k % 3 == 0 { "add_degen_pool_limit" } else { "update_degen_pool_limit" }, json!({"pool_id": p, "degen_pool_limit_info": {"tvl_limit": x.to_string()}}), 1), degen && (has == (k % 3 == 1)))
                }
            }
            Set::Rated(k, t, ty, secs) => {
                let t = ["stnear.near", "linear.near", "nearx.near", "usn.near", "dai.near"][*t as usize % 5].to_string();
                let has = m.rated.get(&t).cloned();
                let good = (10..=300).contains(secs);
                match k % 3 {
                    0 => {
                        let ty = ["STNEAR", "LINEAR", "NEARX", "SFRAX", "OTHER", "stnear"][*ty as usize % 6];
                        let mut a = json!({"rate_type": ty, "token_id": t});
                        let mut ok = has.is_none() && *ty_ok(ty);
                        let mut x = Value::Null;
                        if ty == "SFRAX" {
                            x = sfrax(*k / 3, *secs);
                            ok &= good;
                            a["extra_info"] = json!(x.to_string());
                        }
                        n.rated.insert(t, (ty.into(), x));
                        (mk("register_rated_token", a, 1), ok)
                    }
                    1 => {
                        n.rated.remove(&t);
                        (mk("unregister_rated_token", json!({ "token_id": t }), 1), true)
                    }
                    _ => {
                        let x = sfrax(*k / 3, *secs);
                        let ok = good && has.as_ref().map_or(false, |h| h.0 == "SFRAX");
                        n.rated.insert(t.clone(), ("SFRAX".into(), x.clone()));
                        (mk("update_rated_token_extra_info", json!({"token_id": t, "extra_info": x.to_string()}), 1), ok)
                    }
                }
            }
            Set::Degen(k, t, ty) => {
                // (tokens in pools stay registered, and prices need their source)
                let all = ["usn.near", "linear.near", "wrap.near", "usdc.near", "dai.near"];
                let t = all[*t as usize % if k % 3 == 2 { 2 } else { 5 }].to_string();
                if m.configs.len() < 2 {
                    return None;
                }
                let mut d = n.degen.take()?;
                let has = d.contains_key(&t);
                let (shown, arg) = if ty & 1 == 0 {
                    let dec = TOKENS.iter().find(|x| x.id == t).unwrap().dec;
                    (("PriceOracle".to_string(), json!(dec)), json!({"PriceOracle": {"decimals": dec}}))
                } else {
                    (("PythOracle".to_string(), json!(PYTH_ID)), json!({"PythOracle": {"price_identifier": PYTH_ID}}))
                };
                let r = match k % 3 {
                    0 => {
                        d.insert(t.clone(), shown);
                        (mk("register_degen_token", json!({"token_id": t, "degen_type": arg}), 1), !has)
                    }
                    1 => {
                        d.insert(t.clone(), shown);
                        (mk("update_degen_token", json!({"token_id": t, "degen_type": arg}), 1), has)
                    }
                    _ => {
                        d.remove(&t);
                        (mk("unregister_degen_token", json!({ "token_id": t }), 1), true)
                    }
                };
                n.degen = Some(d);
                r
            }
            Set::Config(k, ty, x) => {
                let (key, v) = if ty & 1 == 0 {
                    ("PriceOracleConfig", json!({"PriceOracle": {"oracle_id": ORACLE, "expire_ts": x.to_string(), "maximum_recency_duration_sec": (60 + x % 1000), "maximum_staleness_duration_sec": 90}}))
                } else {
                    ("PythOracleConfig", json!({"PythOracle": {"oracle_id": PYTH, "expire_ts": x.to_string(), "pyth_price_valid_duration_sec": (60 + x % 1000)}}))
                };
                let has = m.configs.contains_key(key);
                match k % 3 {
                    2 => {
                        n.configs.remove(key);
                        (mk("unregister_degen_oracle_config", json!({ "degen_oracle_config_key": key }), 1), true)
                    }
                    k => {
                        n.configs.insert(key.into(), v.clone());
                        (mk(if k == 0 { "register_degen_oracle_config" } else { "update_degen_oracle_config" }, json!({ "degen_oracle_config": v }), 1), has == (k == 1))
                    }
                }
            }
            Set::List(l, on, ids) => {
                let l = *l as usize % 7;
                let ids: Vec<String> = ids.iter().map(|i| NAMES[*i as usize % NAMES.len()].to_string()).collect();
                // account ids where accounts are asked for; free text otherwise
                if (l == 0 || l == 2 || l == 3 || l == 5) && ids.iter().any(|x| x.starts_with('*') || x.starts_with('.')) {
                    return None;
                }
                let (name, key) = [("guardians", "guardians"), ("auto_whitelisted_postfix", "postfixes"), ("whitelisted_tokens", "tokens"), ("frozenlist_tokens", "tokens"), ("client_echo_token_id_whitelist", "token_ids"), ("client_echo_sender_id_whitelist", "sender_ids"), ("secure_sender_whitelist", "sender_ids")][l];
                let mut ok = true;
                for i in &ids {
                    if *on {
                        let new = n.lists[l].insert(i.clone());
                        ok &= l < 4 || (new && !(i.starts_with('*') && !i.starts_with("*.")));
                    } else {
                        ok &= n.lists[l].remove(i);
                    }
                }
                (mk(&format!("{}_{}", if *on { "extend" } else { "remove" }, name), json!({ key: ids }), 1), ok)
            }
            Set::Peer(k, w) => {
                let k = *k as usize % 4;
                let w = [OWNER, FARM, BURROW, WRAP, "alice.near"][*w as usize % 5];
                n.peers[k] = w.into();
                let (name, key) = [("set_owner", "owner_id"), ("modify_boost_farm_id", "boost_farm_id"), ("modify_burrowland_id", "burrowland_id"), ("modify_wnear_id", "wnear_id")][k];
                (mk(name, json!({ key: w }), 1), true)
            }
            Set::State(on) => {
                n.running = *on;
                (mk("change_state", json!({"state": if *on { "Running" } else { "Paused" }}), 1), true)
            }
            Set::Interval(x) => {
                n.interval = *x as u64;
                (mk("modify_cumulative_info_record_interval_sec", json!({ "record_interval_sec": x }), 1), true)
            }
            Set::Twap(p, on) => {
                let p = *p as u64 % 16;
                let has = m.twap.contains(&p);
                if *on {
                    n.twap.insert(p);
                    let full = (p as usize) < m.pools.len() && {
                        let q = e.pool(p as usize);
                        q.supply > pow10(if q.stable() { 18 } else { 24 })
                    };
                    // the pool's contents per share have to be computable
                    let computable = m.pools.get(p as usize).map_or(false, |x| x.0 != "DEGEN_SWAP" && x.0 != "RATED_SWAP") || (full && e.w.view(EX, "get_unit_share_token_amounts", json!({ "pool_id": p })).is_ok());
                    (mk("register_pool_twap_record", json!({ "pool_id": p }), 1), !has && full && computable)
                } else {
                    n.twap.remove(&p);
                    (mk("unregister_pool_twap_record", json!({ "pool_id": p }), 1), has)
                }
            }
        };
        Some((c, ok, n))
    }
}
fn ty_ok(t: &str) -> &'static bool {
    if ["STNEAR", "LINEAR", "NEARX", "SFRAX"].contains(&t) { &true } else { &false }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sets {
    h: Hist,
    sets: Vec<Set>,
}
/// what no setting may touch
fn assets(e: &Ex) -> Seen {
    let mut s = see(e);
    for p in s.s.pools.iter_mut() {
        p.fee = 0;
        p.rates.clear();
    }
    s
}
fn settings(c: &Sets, st: &mut Stats) -> Res {
    let mut e = state(&c.h);
    let mut m = read(&e);
    let mut kinds = BTreeSet::new();
    for s in &c.sets {
        let (call, ok, n) = match s.plan(&e, &m) {
            Some(x) => x,
            None => continue,
        };
        let a = assets(&e);
        let near = e.w.total_near();
        let paid = e.w.balance(&call.signer);
        e.w.near.entry(call.signer.clone()).or_insert(10 * NEAR);
        let r = e.w.tx_drain(&call.signer, EX, &call.method, call.args.clone(), call.deposit);
        let name = op_set(s);
        ensure!(r[0].ok() == ok, if ok { "valid-refused" } else { "invalid-accepted" }, "{} {} {}: {:?}", call.method, call.args, if ok { "is valid but refused" } else { "is invalid but accepted" }, r[0].result);
        // tokens get their first price before they show
        if let (Set::Degen(..), true) = (s, ok) {
            let ids: Vec<String> = n.degen.iter().flatten().map(|x| x.0.clone()).collect();
            for i in &ids {
                let now = e.w.now;
                let o = e.w.model_mut(ORACLE).oracle_mut();
                o.timestamp = now;
                o.prices.entry(i.clone()).or_insert(Some((10_000, 28)));
                e.w.tx_drain("mallory.near", EX, "update_degen_token_price", json!({ "token_id": i }), 0);
            }
        }
        let b = assets(&e);
        let got = read(&e);
        if ok {
            let mut want = n;
            if let Set::Pool { .. } = s {
                let id = m.pools.len() as u64;
                ensure!(r[0].json() == json!(id), "pool-id", "a new pool gets the id {} instead of {}", r[0].json(), id);
                let p = e.pool(id as usize);
                ensure!(p.supply == 0 && p.amounts.iter().all(|x| *x == 0), "new-pool", "a new pool starts with {:?}", p);
                let (x, y) = (&got.pools[id as usize], &want.pools[id as usize]);
                let z = (x.0.clone(), x.1.clone(), if x.0 == "SIMPLE_POOL" { vec![] } else { x.2.clone() }, x.3, x.4);
                ensure!(z == *y, "new-pool", "a new pool is {:?} instead of {:?}", x, y);
                want.pools[id as usize] = x.clone();
                let spent = paid - e.w.balance(&call.signer);
                ensure!(spent > 0 && spent < NEAR / 10, "pool-price", "a new pool costs {} yocto", spent);
            }
            if got.degen.is_none() || want.degen.is_none() {
                want.degen = got.degen.clone();
            }
            ensure!(got == want, "setting", "{} {} leads to {}", call.method, call.args, differ(&got, &want));
            m = want;
            kinds.insert(name.clone());
            st.label(&format!("{} accepted", name));
        } else {
            m.degen = if got.degen.is_none() { None } else { m.degen };
            ensure!(got == m, "refused-with-effect", "{} {} is refused, but changes {}", call.method, call.args, differ(&got, &m));
            st.label(&format!("{} refused", name));
            st.add("settings refused", 1);
            kinds.insert(format!("{} refused", name));
        }
        ensure!(e.w.total_near() == near, "near", "NEAR is lost in {}", call.method);
        let mut b = b;
        if let (Set::Pool { .. }, true) = (s, ok) {
            b.s.pools.pop();
            for v in b.s.shares.values_mut() {
                if v.len() > b.s.pools.len() {
                    ensure!(v.pop() == Some(0), "new-pool", "a new pool starts with shares");
                }
            }
        }
        let mut a2 = a;
        for (x, y) in a2.s.shares.values_mut().zip(b.s.shares.values()) {
            x.truncate(y.len());
        }
        ensure!(a2 == b, "side-effect", "{} {} touches {}", call.method, call.args, diff(&a2, &b));
    }
    if kinds.len() >= 4 {
        st.hit();
    }
    Ok(())
}
fn op_set(s: &Set) -> String {
    let x = format!("{:?}", s);
    x.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn differ(a: &Cfg, b: &Cfg) -> String {
    let mut v = vec![];
    let (x, y) = (format!("{:#?}", a), format!("{:#?}", b));
    let (x, y): (Vec<&str>, Vec<&str>) = (x.lines().collect(), y.lines().collect());
    for l in &x {
        if !y.contains(l) {
            v.push(format!("has {}", l.trim()));
        }
    }
    for l in &y {
        if !x.contains(l) {
            v.push(format!("lacks {}", l.trim()));
        }
    }
    v.truncate(8);
    v.join("; ")
}

/// around a bound
fn near_u32(b: u32) -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(b), 2 => Just(b - 1), 2 => Just(b + 1), 4 => 0..b, 1 => b..=u32::MAX, 1 => Just(0), 1 => Just(1), 1 => Just(u32::MAX)].boxed()
}
fn set() -> BoxedStrategy<Set> {
    let dec = || prop_oneof![1 => Just(0u8), 8 => 1u8..=24, 1 => Just(25u8), 1 => any::<u8>(), 4 => prop::sample::select(vec![6u8, 18, 24])];
    let amp = prop_oneof![6 => 1u64..=1_000_000, 1 => Just(0), 2 => Just(1), 2 => Just(1_000_000), 2 => Just(1_000_001), 1 => any::<u64>()];
    let toks = prop_oneof![6 => prop::collection::vec(0u8..8, 2), 2 => prop::collection::vec(0u8..8, 3..5), 1 => prop::collection::vec(0u8..8, 1..6)];
    prop_oneof![
        8 => (any::<u8>(), toks, prop::collection::vec(dec(), 1..4), prop::bool::weighted(0.1), prop_oneof![3 => 0u32..10_000, 1 => near_u32(10_000)], amp, prop::bool::weighted(0.1)).prop_map(|(kind, mut toks, decs, short, fee, amp, poor)| {
            if kind % 4 != 0 && toks.len() < 2 {
                toks = vec![0, 1];
            }
            Set::Pool { kind, toks, decs, short, fee, amp, poor }
        }),
        3 => near_u32(8000).prop_map(Set::AdminFee),
        3 => (any::<u8>(), near_u32(10_000)).prop_map(|(p, x)| Set::TotalFee(p, x)),
        4 => (any::<u8>(), any::<u8>(), near_u32(10_000)).prop_map(|(a, b, x)| Set::Referral(a, b, x)),
        4 => (any::<u8>(), prop_oneof![any::<u8>(), prop::sample::select(vec![5u8, 9])], any::<u64>()).prop_map(|(a, b, x)| Set::Limit(a, b, x)),
        4 => (any::<u8>(), any::<u8>(), any::<u8>(), prop_oneof![3 => 10u32..=300, 1 => near_u32(300), 1 => near_u32(10)]).prop_map(|(a, b, c, x)| Set::Rated(a, b, c, x)),
        3 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Set::Degen(a, b, c)),
        2 => (any::<u8>(), any::<u8>(), 0u64..10_000_000_000_000).prop_map(|(a, b, x)| Set::Config(a, b, x)),
        8 => (any::<u8>(), any::<bool>(), prop::collection::vec(any::<u8>(), 1..4)).prop_map(|(l, on, v)| Set::List(l, on, v)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Set::Peer(a, b)),
        1 => any::<bool>().prop_map(Set::State),
        1 => any::<u32>().prop_map(Set::Interval),
        3 => (any::<u8>(), prop::bool::weighted(0.7)).prop_map(|(p, on)| Set::Twap(p, on)),
    ]
    .boxed()
}

pub fn defs() -> Vec<Def> {
    vec![
        def(
            "C15",
            "a generated state and changes of owner, guardians, peers and running state; 8 administrative or internal methods called by a generated caller with a generated deposit and by everybody who has no right to, each beside a fork where the right account makes it; non-trivial: a call was refused that the right account can make",
            700,
            60_000,
            || {
                let calls = prop::collection::vec((any::<u16>(), any::<u8>(), any::<u8>(), any::<u8>()), 8);
                let lock = prop_oneof![1 => Just(None), 3 => (0u8..10, 1u16..60_000).prop_map(Some)];
                (hist(STATE, 0..4), prop::collection::vec((any::<u8>(), any::<u8>()), 0..5), calls, lock).prop_map(|(h, chg, calls, lock)| Calls { h, chg, calls, lock }).boxed()
            },
            access,
        ),
        def(
            "C28",
            "a generated state and 12 settings at and around their bounds, compared with a model of all settings; non-trivial: at least four different kinds of accepted or refused settings",
            600,
            60_000,
            || (hist(STATE, 0..4), prop::collection::vec(set(), 12)).prop_map(|(h, sets)| Sets { h, sets }).boxed(),
            settings,
        ),
    ]
}
