//! The farming contract: fixture, operations, observation of a history, and an independent account of what it owes.
use super::*;
use crate::models::*;
use crate::vm::{Action, PromiseRes};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub const FA: &str = "farming.near";
pub const AMM: &str = "amm.near";
pub const BOTH: &str = "both.near";
pub const FTS: [&str; 4] = ["seeda.near", BOTH, "rwd1.near", "rwd2.near"];
pub const SEEDS: [&str; 4] = ["seeda.near", BOTH, "amm.near@0", "amm.near@17"];
pub const REWARDS: [&str; 3] = ["rwd1.near", BOTH, "rwd2.near"];
/// everyone who can have something in the contract
pub const PEOPLE: [&str; 6] = ["alice.near", "bob.near", "carol.near", "dave.near", OWNER, FRESH];
pub const WALLET: u128 = 1_000_000_000_000_000_000_000_000_000_000_000_000; // 1e36
pub const SEED_UNIT: u128 = 4_000_000_000_000_000_000_000_000;
pub const BASE_NEAR: u128 = 20 * crate::chain::NEAR;
pub const PER: [u128; 10] = [1_000, 1_000_000_000_000_000_000, 7, 1, 3_000_000_000_000_000_000_000_001, 999_999_999, 1_000_000_000_000_000_000_000_000_000_000, u128::MAX / 2, 12_345, 0];
pub const INTERVAL: [u32; 8] = [60, 1, 3_600, 7, 86_400, 10, 2, 0];
pub const MINS: [Option<u128>; 6] = [None, Some(1), Some(10), Some(1_000_000_000_000_000_000), Some(5_000_000_000_000_000_000_000_000), Some(1_000)];

pub fn parse_mft(seed: &str) -> Option<String> {
    seed.split_once('@').map(|x| format!(":{}", x.1))
}
fn num_of(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).or(v.as_u64().map(|x| x as u128)).unwrap_or_else(|| panic!("no number: {}", v))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Terms {
    pub seed: u8,
    pub tok: u8,
    /// 0: at the first reward; otherwise relative to now
    pub start: i32,
    pub per: u8,
    pub interval: u8,
    pub min: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fo {
    Register { who: u8, to: u8, milli: u16, only: bool },
    Create { t: Terms, by: u8 },
    Reward { who: u8, farm: u8, sessions: u16, extra: u16, wrong: u8 },
    Stake { who: u8, seed: u8, a: Amt, msg: bool },
    Unstake { who: u8, seed: u8, a: Amt },
    ClaimFarm { who: u8, farm: u8 },
    ClaimSeed { who: u8, seed: u8 },
    Take { who: u8, tok: u8, a: Option<Amt> },
    Drop { who: u8, farm: u8 },
    StorOut { who: u8, milli: Option<u16> },
    Leave { who: u8 },
    Clean { farm: u8, by: u8 },
    MinDep { seed: u8, min: u8 },
    Pause(bool),
    Wait { secs: u32 },
    /// to a boundary between rounds of a farm, `n` rounds on, `d` seconds off
    Until { farm: u8, n: u16, d: i8 },
    Blocked { who: u8, tok: u8, on: bool },
    Down { tok: u8, on: bool },
    Donate { who: u8, tok: u8, a: Amt },
    Forge { kind: u8, seed: u8, a: Amt },
    Step { k: u8, fail: bool },
    Drain,
}

#[derive(Clone, Debug)]
pub struct FCall {
    pub signer: String,
    pub to: String,
    pub method: String,
    pub args: Value,
    pub deposit: u128,
}
fn fcall(signer: &str, to: &str, method: &str, args: Value, deposit: u128) -> Option<FCall> {
    Some(FCall { signer: signer.into(), to: to.into(), method: method.into(), args, deposit })
}

/// what one farm reports
#[derive(Clone, Debug, PartialEq)]
pub struct FarmS {
    pub status: String,
    pub seed: String,
    pub token: String,
    pub start: u64,
    pub per: u128,
    pub interval: u64,
    pub total: u128,
    pub cur: u64,
    pub last: u64,
    pub claimed: u128,
    pub unclaimed: u128,
    pub ben: u128,
}
fn farm_s(v: &Value) -> FarmS {
    let u = |k: &str| num_of(&v[k]);
    let s = |k: &str| v[k].as_str().unwrap().to_string();
    FarmS {
        status: s("farm_status"),
        seed: s("seed_id"),
        token: s("reward_token"),
        start: v["start_at"].as_u64().unwrap(),
        per: u("reward_per_session"),
        interval: v["session_interval"].as_u64().unwrap(),
        total: u("total_reward"),
        cur: u("cur_round") as u64,
        last: u("last_round") as u64,
        claimed: u("claimed_reward"),
        unclaimed: u("unclaimed_reward"),
        ben: u("beneficiary_reward"),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct SeedS {
    pub amount: u128,
    pub min: u128,
    pub next: u64,
    pub farms: BTreeSet<String>,
    pub kind: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct FSnap {
    pub paused: bool,
    pub owner: String,
    pub farmers: u64,
    pub seeds: BTreeMap<String, SeedS>,
    pub farms: BTreeMap<String, FarmS>,
    pub old: BTreeMap<String, FarmS>,
    pub info: BTreeMap<String, u128>,
    pub rew: BTreeMap<String, BTreeMap<String, u128>>,
    pub stk: BTreeMap<String, BTreeMap<String, u128>>,
    /// (deposit, usage)
    pub stor: BTreeMap<String, (u128, u128)>,
    pub unc: BTreeMap<(String, String), u128>,
}
impl FSnap {
    pub fn stake(&self, who: &str, seed: &str) -> u128 {
        self.stk.get(who).and_then(|m| m.get(seed)).copied().unwrap_or(0)
    }
    pub fn reward(&self, who: &str, t: &str) -> u128 {
        self.rew.get(who).and_then(|m| m.get(t)).copied().unwrap_or(0)
    }
    pub fn ample(&self, who: &str) -> bool {
        self.stor.get(who).map_or(false, |(d, u)| *d >= *u + crate::chain::NEAR / 20)
    }
}
fn map_u(v: &Value) -> BTreeMap<String, u128> {
    v.as_object().map(|m| m.iter().map(|(k, x)| (k.clone(), num_of(x))).collect()).unwrap_or_default()
}

#[derive(Clone)]
pub struct Fx {
    pub w: World,
    /// all farms there have been, in order of creation
    pub ids: Vec<String>,
}
thread_local! {
    static FBASE: RefCell<Option<Fx>> = RefCell::new(None);
}

impl Fx {
    pub fn build(code: crate::vm::Code) -> Fx {
        let mut w = World::new();
        w.deploy(FA, code, BASE_NEAR);
        for a in PEOPLE.iter().chain([&"mallory.near"]) {
            w.near.insert(a.to_string(), 100_000 * crate::chain::NEAR);
        }
        for t in FTS {
            let mut m = Token::default();
            for p in PEOPLE {
                m.mint(p, WALLET);
            }
            w.add_model(t, Model::Token(m));
        }
        let mut m = Mft::default();
        for p in PEOPLE {
            for t in [":0", ":17", ":3"] {
                m.bal.insert((t.into(), p.into()), WALLET);
            }
        }
        w.add_model(AMM, Model::Mft(m));
        let r = w.tx(OWNER, FA, "new", json!({ "owner_id": OWNER }), 0);
        assert!(r.ok(), "initialisation: {:?}", r.result);
        Fx { w, ids: vec![] }
    }
    pub fn base() -> Fx {
        FBASE.with(|b| b.borrow_mut().get_or_insert_with(|| Fx::build(code("ref_farming"))).clone())
    }
    pub fn v(&self, m: &str, a: Value) -> Value {
        self.w.view(FA, m, a.clone()).unwrap_or_else(|e| panic!("view {} {} fails: {}", m, a, e))
    }
    pub fn sec(&self) -> u64 {
        self.w.now / 1_000_000_000
    }
    pub fn bal(&self, id: &str, who: &str) -> u128 {
        match id.split_once('@') {
            Some((host, t)) => self.w.model(host).mft().of(&format!(":{}", t), who),
            None => self.w.model(id).token().of(who),
        }
    }
    pub fn farm(&self, k: u8) -> String {
        if k >= 250 || self.ids.is_empty() {
            return ["seeda.near#99", "nothing.near#0"][k as usize % 2].into();
        }
        self.ids[k as usize % self.ids.len()].clone()
    }
    pub fn seed_info(&self, s: &str) -> Value {
        self.v("get_seed_info", json!({ "seed_id": s }))
    }

    pub fn snap(&self, unc: bool) -> FSnap {
        let mut s = FSnap::default();
        let m = self.v("get_metadata", json!({}));
        s.paused = m["state"] != "Running";
        s.owner = m["owner_id"].as_str().unwrap().into();
        s.farmers = num_of(&m["farmer_count"]) as u64;
        let all = json!({"from_index": 0, "limit": 100});
        for (k, v) in self.v("list_seeds_info", all.clone()).as_object().unwrap() {
            s.seeds.insert(k.clone(), SeedS {
                amount: num_of(&v["amount"]),
                min: num_of(&v["min_deposit"]),
                next: v["next_index"].as_u64().unwrap(),
                farms: v["farms"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                kind: v["seed_type"].as_str().unwrap().into(),
            });
        }
        for (m, out) in [("list_farms", &mut s.farms), ("list_outdated_farms", &mut s.old)] {
            for v in self.v(m, all.clone()).as_array().unwrap() {
                out.insert(v["farm_id"].as_str().unwrap().into(), farm_s(v));
            }
        }
        s.info = map_u(&self.v("list_rewards_info", all));
        for p in PEOPLE {
            let a = json!({ "account_id": p });
            s.rew.insert(p.into(), map_u(&self.v("list_rewards", a.clone())));
            s.stk.insert(p.into(), map_u(&self.v("list_user_seeds", a.clone())));
            let x = self.v("get_user_storage_state", a);
            if !x.is_null() {
                s.stor.insert(p.into(), (num_of(&x["deposit"]), num_of(&x["usage"])));
            }
            if unc && s.stor.contains_key(p) {
                for f in s.farms.keys() {
                    let v = num_of(&self.v("get_unclaimed_reward", json!({"account_id": p, "farm_id": f})));
                    s.unc.insert((p.into(), f.clone()), v);
                }
            }
        }
        s
    }

    /// mostly somebody with a stake in `seed`
    fn staker(&self, who: u8, seed: &str, k: u8) -> &'static str {
        if who < 4 && k % 8 != 7 {
            for i in 0..4u8 {
                let q = Fx::person((who + i) % 4);
                if map_u(&self.v("list_user_seeds", json!({ "account_id": q }))).contains_key(seed) {
                    return q;
                }
            }
        }
        Fx::person(who)
    }
    fn person(k: u8) -> &'static str {
        PEOPLE[k as usize % PEOPLE.len()]
    }
    pub fn terms_json(&self, t: &Terms) -> Value {
        let start = if t.start == 0 { 0 } else { (self.sec() as i64 + t.start as i64) as u64 };
        json!({
            "seed_id": SEEDS[t.seed as usize % 4], "reward_token": REWARDS[t.tok as usize % 3], "start_at": start,
            "reward_per_session": PER[t.per as usize % PER.len()].to_string(), "session_interval": INTERVAL[t.interval as usize % INTERVAL.len()],
        })
    }
    pub fn call(&self, op: &Fo) -> Option<FCall> {
        let p = Fx::person;
        match op {
            Fo::Register { who, to, milli, only } => {
                let d = *milli as u128 * crate::chain::NEAR / 1000;
                fcall(p(*who), FA, "storage_deposit", json!({"account_id": p(*to), "registration_only": only}), d)
            }
            Fo::Create { t, by } => {
                let who = if *by < 240 { OWNER } else { p(*by) };
                let m = MINS[t.min as usize % MINS.len()];
                fcall(who, FA, "create_simple_farm", json!({"terms": self.terms_json(t), "min_deposit": m.map(|x| x.to_string())}), crate::chain::NEAR)
            }
            Fo::Reward { who, farm, sessions, extra, wrong } => {
                let id = self.farm(*farm);
                let mut f = self.v("get_farm", json!({ "farm_id": id }));
                if f.is_null() {
                    f = self.v("get_outdated_farm", json!({ "farm_id": id }));
                }
                let per = if f.is_null() { 1000 } else { num_of(&f["reward_per_session"]) };
                let mut tok = f["reward_token"].as_str().unwrap_or(FTS[2]).to_string();
                if *wrong >= 240 {
                    tok = FTS[*wrong as usize % 4].into();
                }
                let a = per.saturating_mul(*sessions as u128).saturating_add(if *extra > 60_000 { per / 3 } else { *extra as u128 % 100 }).min(WALLET / 8);
                fcall(p(*who), &tok, "ft_transfer_call", json!({"receiver_id": FA, "amount": a.to_string(), "msg": id}), 1)
            }
            Fo::Stake { who, seed, a, msg } => {
                let s = SEEDS[*seed as usize % 4];
                let known = self.v("list_seeds", json!({"from_index": 0, "limit": 10}));
                // mostly a seed that there is
                let s = if known.get(s).is_some() || *seed >= 200 { s } else { SEEDS.into_iter().find(|s| known.get(s).is_some()).unwrap_or(s) };
                let i = self.seed_info(s);
                let min = if i.is_null() { 1 } else { num_of(&i["min_deposit"]) };
                let x = match a {
                    Amt::Small(x) => (min + *x as u128).saturating_sub(2),
                    Amt::All => min,
                    Amt::Log(e, _) => min.max(a.of(0, 0).min(pow10(*e as u32 % 31) * 99)),
                    _ => min.saturating_add(a.of(SEED_UNIT, WALLET)),
                };
                let m = if *msg { "" } else { "hello" };
                match parse_mft(s) {
                    Some(t) => fcall(p(*who), AMM, "mft_transfer_call", json!({"token_id": t, "receiver_id": FA, "amount": x.to_string(), "msg": m}), 1),
                    None => fcall(p(*who), s, "ft_transfer_call", json!({"receiver_id": FA, "amount": x.to_string(), "msg": m}), 1),
                }
            }
            Fo::Unstake { who, seed, a } => {
                let mut s = SEEDS[*seed as usize % 4];
                let mut w = p(*who);
                let mut have = 0;
                // mostly somebody who has a stake
                'find: for i in 0..4u8 {
                    let q = if *who < 4 { p((*who + i) % 4) } else { p(*who) };
                    let m = map_u(&self.v("list_user_seeds", json!({ "account_id": q })));
                    for j in 0..4u8 {
                        let t = SEEDS[(*seed as usize + j as usize) % 4];
                        if m.get(t).map_or(false, |x| *x > 0) {
                            (s, w, have) = (t, q, m[t]);
                            break 'find;
                        }
                    }
                    if *seed >= 200 || *who >= 4 {
                        break;
                    }
                }
                fcall(w, FA, "withdraw_seed", json!({"seed_id": s, "amount": a.of(have, have).to_string()}), 1)
            }
            Fo::ClaimFarm { who, farm } => {
                let id = self.farm(*farm);
                fcall(self.staker(*who, id.split('#').next().unwrap(), *farm), FA, "claim_reward_by_farm", json!({ "farm_id": id }), 0)
            }
            Fo::ClaimSeed { who, seed } => {
                let s = SEEDS[*seed as usize % 4];
                fcall(self.staker(*who, s, *seed), FA, "claim_reward_by_seed", json!({ "seed_id": s }), 0)
            }
            Fo::Take { who, tok, a } => {
                let mut t = REWARDS[*tok as usize % 3];
                let mut w = p(*who);
                let mut have = 0;
                'look: for i in 0..4u8 {
                    let q = if *who < 4 { p((*who + i) % 4) } else { p(*who) };
                    let m = map_u(&self.v("list_rewards", json!({ "account_id": q })));
                    for j in 0..3u8 {
                        let u = REWARDS[(*tok as usize + j as usize) % 3];
                        if m.contains_key(u) {
                            (t, w, have) = (u, q, m[u]);
                            break 'look;
                        }
                    }
                    if *tok >= 200 || *who >= 4 {
                        break;
                    }
                }
                if have == 0 && *who < 4 && *tok < 200 {
                    // nothing to take yet: somebody claims
                    let all = self.snap(true);
                    if let Some(((q, id), _)) = all.unc.iter().filter(|x| *x.1 > 0).nth(*who as usize).or(all.unc.iter().find(|x| *x.1 > 0)) {
                        return fcall(q, FA, "claim_reward_by_farm", json!({ "farm_id": id }), 0);
                    }
                }
                fcall(w, FA, "withdraw_reward", json!({"token_id": t, "amount": a.as_ref().map(|a| a.of(have, have).to_string())}), 1)
            }
            Fo::Drop { who, farm } => fcall(p(*who), FA, "remove_user_rps_by_farm", json!({ "farm_id": self.farm(*farm) }), 0),
            Fo::StorOut { who, milli } => {
                let a = milli.map(|m| (m as u128 * crate::chain::NEAR / 1_000_000).to_string());
                fcall(p(*who), FA, "storage_withdraw", json!({ "amount": a }), 1)
            }
            Fo::Leave { who } => fcall(p(*who), FA, "storage_unregister", json!({}), 1),
            Fo::Clean { farm, by } => fcall(if *by < 240 { OWNER } else { p(*by) }, FA, "force_clean_farm", json!({ "farm_id": self.farm(*farm) }), 0),
            Fo::MinDep { seed, min } => fcall(OWNER, FA, "modify_seed_min_deposit", json!({"seed_id": SEEDS[*seed as usize % 4], "min_deposit": MINS[*min as usize % MINS.len()].unwrap_or(0).to_string()}), 0),
            Fo::Pause(on) => fcall(OWNER, FA, if *on { "pause_contract" } else { "resume_contract" }, json!({}), 1),
            Fo::Donate { who, tok, a } => {
                let x = a.of(SEED_UNIT, WALLET / 8).max(1);
                let s = [FTS[0], BOTH, FTS[2], FTS[3], AMM][*tok as usize % 5];
                if s == AMM {
                    fcall(p(*who), AMM, "mft_transfer", json!({"token_id": ":0", "receiver_id": FA, "amount": x.to_string()}), 1)
                } else {
                    fcall(p(*who), s, "ft_transfer", json!({"receiver_id": FA, "amount": x.to_string()}), 1)
                }
            }
            Fo::Forge { kind, seed, a } => {
                let (x, s) = (a.of(SEED_UNIT, WALLET).to_string(), SEEDS[*seed as usize % 4]);
                let m = "mallory.near";
                match kind % 6 {
                    0 => fcall(m, FA, "ft_on_transfer", json!({"sender_id": m, "amount": x, "msg": ""}), 0),
                    1 => fcall(m, FA, "ft_on_transfer", json!({"sender_id": "alice.near", "amount": x, "msg": self.farm(*seed)}), 0),
                    2 => fcall(m, FA, "mft_on_transfer", json!({"token_id": ":0", "sender_id": m, "amount": x, "msg": ""}), 0),
                    3 => fcall(m, FA, "callback_post_withdraw_ft_seed", json!({"seed_id": s, "sender_id": "alice.near", "amount": x}), 0),
                    4 => fcall(m, FA, "callback_post_withdraw_mft_seed", json!({"seed_id": s, "sender_id": "alice.near", "amount": x}), 0),
                    _ => fcall(m, FA, "callback_post_withdraw_reward", json!({"token_id": REWARDS[*seed as usize % 3], "sender_id": "alice.near", "amount": x}), 0),
                }
            }
            _ => None,
        }
    }
    /// executes the first receipt of an operation
    pub fn run(&mut self, op: &Fo) -> (Option<FCall>, Option<Executed>) {
        match op {
            Fo::Wait { secs } => self.w.advance(*secs as u64),
            Fo::Until { farm, n, d } => {
                let f = self.v("get_farm", json!({ "farm_id": self.farm(*farm) }));
                if !f.is_null() {
                    let (start, int) = (f["start_at"].as_u64().unwrap() as i64, f["session_interval"].as_u64().unwrap() as i64);
                    let now = self.sec() as i64;
                    if start > 0 && int > 0 {
                        let r = if now < start { 0 } else { (now - start) / int + 1 };
                        let t = start + (r + *n as i64) * int + *d as i64;
                        if t > now && t < now + 40 * 86_400 {
                            self.w.advance((t - now) as u64);
                        }
                    }
                }
            }
            Fo::Blocked { who, tok, on } => {
                let who = Fx::person(*who).to_string();
                let set = match *tok as usize % 5 {
                    4 => &mut self.w.model_mut(AMM).mft_mut().blocked,
                    k => &mut self.w.model_mut(FTS[k]).token_mut().blocked,
                };
                if *on { set.insert(who); } else { set.remove(&who); }
            }
            Fo::Down { tok, on } => match *tok as usize % 5 {
                4 => self.w.model_mut(AMM).mft_mut().paused = *on,
                k => self.w.model_mut(FTS[k]).token_mut().paused = *on,
            },
            Fo::Step { k, fail } => {
                let f = if *fail && self.can_fail(*k as usize) { Some("injected") } else { None };
                return (None, self.w.step(*k as usize, f));
            }
            _ => {
                let c = match self.call(op) {
                    Some(c) => c,
                    None => return (None, None),
                };
                let x = self.w.tx(&c.signer, &c.to, &c.method, c.args.clone(), c.deposit);
                if let (Fo::Create { .. }, true) = (op, x.ok()) {
                    self.ids.push(x.json().as_str().unwrap_or("").to_string());
                }
                return (Some(c), Some(x));
            }
        }
        (None, None)
    }
    /// only what other contracts do can fail for reasons of their own
    fn can_fail(&self, k: usize) -> bool {
        let r = self.w.ready();
        if r.is_empty() {
            return false;
        }
        let p = &self.w.pending[r[k % r.len()]];
        p.receiver != FA && p.actions.iter().any(|a| matches!(a, Action::Call { method, .. } if method == "ft_transfer" || method == "mft_transfer"))
    }
    pub fn heal(&mut self) {
        for t in FTS {
            let m = self.w.model_mut(t).token_mut();
            m.blocked.clear();
            m.paused = false;
        }
        let m = self.w.model_mut(AMM).mft_mut();
        m.blocked.clear();
        m.paused = false;
    }
    /// what the contract still owes for calls under way, and what has arrived without being booked: asset -> amount
    pub fn flying(&self) -> (BTreeMap<String, u128>, bool) {
        let mut m: BTreeMap<String, u128> = BTreeMap::new();
        let mut arriving = false;
        for r in &self.w.pending {
            for a in &r.actions {
                if let Action::Call { method, args, .. } = a {
                    let v: Value = serde_json::from_slice(args).unwrap_or_default();
                    let mut add = |k: String| *m.entry(k).or_insert(0) += num_of(&v["amount"]);
                    match method.as_str() {
                        "ft_transfer" if r.predecessor == FA => add(r.receiver.clone()),
                        "mft_transfer" if r.predecessor == FA => add(format!("{}@{}", r.receiver, v["token_id"].as_str().unwrap().trim_start_matches(':'))),
                        "callback_post_withdraw_reward" | "callback_post_withdraw_ft_seed" | "callback_post_withdraw_mft_seed" if r.receiver == FA => {
                            let failed = r.inputs.iter().any(|i| matches!(self.w.data.get(i), Some(PromiseRes::Failed)));
                            if failed {
                                add(v["token_id"].as_str().or(v["seed_id"].as_str()).unwrap().to_string());
                            }
                        }
                        "ft_on_transfer" | "mft_on_transfer" | "ft_resolve_transfer" | "mft_resolve_transfer" => arriving = true,
                        _ => {}
                    }
                }
            }
        }
        (m, arriving)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FHist {
    pub frac: bool,
    /// who is registered at the start, and with little
    pub reg: u8,
    pub lean: u8,
    pub farms: Vec<(Terms, u16, u16)>,
    /// stakes at the start
    pub stakes: Vec<(u8, u8, u16)>,
    /// everything a call causes happens at once
    pub eager: bool,
    pub ops: Vec<Fo>,
}

pub trait FWatch {
    fn unclaimed(&self) -> bool {
        true
    }
    fn start(&mut self, _f: &Fx, _a: &FSnap) {}
    fn before(&mut self, _f: &Fx, _op: &Fo, _a: &FSnap, _st: &mut Stats) -> Res {
        Ok(())
    }
    /// after one receipt (or after time or the environment has changed)
    fn step(&mut self, f: &Fx, x: Option<&Executed>, a: &FSnap, b: &FSnap, st: &mut Stats) -> Res;
    fn finish(&mut self, _f: &Fx, _s: &FSnap, _st: &mut Stats) -> Res {
        Ok(())
    }
}
pub fn fop_name(op: &Fo) -> String {
    fop_name_of(&format!("{:?}", op))
}
pub fn fop_name_of(s: &str) -> String {
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
pub fn xshow(x: &Executed) -> String {
    format!("{}->{}.{}({}) {}", x.predecessor, x.receiver, x.method, String::from_utf8_lossy(&x.args), match &x.result {
        Ok(v) => format!("= {}", String::from_utf8_lossy(v)),
        Err(m) => format!("failed: {}", m),
    })
}

pub fn setup_ops(h: &FHist) -> Vec<Fo> {
    let mut v = vec![];
    for k in 0..5u8 {
        if h.reg >> k & 1 == 1 {
            let milli = if h.lean >> k & 1 == 1 { 1 + 23 } else { 1000 };
            v.push(Fo::Register { who: k, to: k, milli, only: false });
        }
    }
    for (t, sessions, extra) in &h.farms {
        v.push(Fo::Create { t: t.clone(), by: 0 });
        let i = v.iter().filter(|o| matches!(o, Fo::Create { .. })).count() as u8 - 1;
        if *sessions > 0 {
            v.push(Fo::Reward { who: 4, farm: i, sessions: *sessions, extra: *extra, wrong: 0 });
            v.push(Fo::Drain);
        }
    }
    for (who, seed, x) in &h.stakes {
        v.push(Fo::Stake { who: *who, seed: *seed, a: Amt::Frac(*x), msg: true });
        v.push(Fo::Drain);
    }
    v
}

pub fn fdrive(h: &FHist, w: &mut dyn FWatch, st: &mut Stats) -> Result<Fx, Viol> {
    let mut f = Fx::base();
    if h.frac {
        f.w.now += 500_000_000;
    }
    let mut todo: std::collections::VecDeque<Fo> = setup_ops(h).into();
    for o in &h.ops {
        todo.push_back(o.clone());
        if h.eager {
            todo.push_back(Fo::Drain);
        }
    }
    todo.push_back(Fo::Drain);
    let mut a = f.snap(w.unclaimed());
    w.start(&f, &a);
    while let Some(op) = todo.pop_front() {
        if op == Fo::Drain {
            if !f.w.ready().is_empty() {
                todo.push_front(Fo::Drain);
                todo.push_front(Fo::Step { k: 0, fail: false });
            }
            continue;
        }
        w.before(&f, &op, &a, st)?;
        let (c, x) = f.run(&op);
        let same = match &x {
            Some(x) => x.receiver != FA || !x.ok(),
            None => !matches!(op, Fo::Wait { .. } | Fo::Until { .. }),
        };
        if let (Some(x), Some(_)) = (&x, &c) {
            st.label(&format!("{} {}", fop_name(&op), if x.ok() { "ok" } else { "fails" }));
        } else if let Some(x) = &x {
            if x.method.contains("on_transfer") {
                st.label(&format!("{} {}", x.method, if x.ok() { "ok" } else { "fails" }));
            }
        }
        let b = if same { a.clone() } else { f.snap(w.unclaimed()) };
        w.step(&f, x.as_ref(), &a, &b, st)?;
        a = b;
    }
    w.finish(&f, &a, st)?;
    Ok(f)
}

/// An independent account of farms: what each has released by now, and to whom.
#[derive(Clone, Default)]
pub struct Book {
    pub farms: BTreeMap<String, BFarm>,
    /// (seed, farmer) -> stake
    pub stake: BTreeMap<(String, String), u128>,
    pub total: BTreeMap<String, u128>,
}
#[derive(Clone)]
pub struct BFarm {
    pub seed: String,
    pub token: String,
    /// 0: not known yet
    pub start: u64,
    pub per: u128,
    pub interval: u64,
    pub funded: u128,
    pub released: u128,
    /// released while nobody had staked
    pub nobody: u128,
    pub cleared: bool,
    /// farmer -> share of what was released, in 2^-64
    pub due: BTreeMap<String, BigUint>,
    pub paid: BTreeMap<String, u128>,
    /// farmer -> number of claims
    pub claims: BTreeMap<String, u128>,
    /// how often the contract may have rounded
    pub touches: u128,
    pub peak: BTreeMap<String, u128>,
    /// the most that was staked in all
    pub top: u128,
}
impl BFarm {
    pub fn rounds(&self, now: u64) -> u64 {
        if self.start == 0 || now < self.start || self.interval == 0 { 0 } else { (now - self.start) / self.interval }
    }
    /// what is released by `now`
    pub fn out(&self, now: u64) -> u128 {
        let r = BigUint::from(self.rounds(now)) * BigUint::from(self.per);
        big_u128(&r).unwrap_or(u128::MAX).min(self.funded)
    }
    pub fn ended(&self, now: u64) -> bool {
        self.funded > 0 && self.start > 0 && now >= self.start && self.out(now) == self.funded
    }
    pub fn status(&self, now: u64) -> &'static str {
        if self.cleared {
            "Cleared"
        } else if self.funded == 0 {
            "Created"
        } else if self.ended(now) {
            "Ended"
        } else {
            "Running"
        }
    }
    /// what may have been lost to rounding so far
    pub fn dust(&self) -> u128 {
        (self.touches + 1) * (self.top / pow10(24) + 2)
    }
    /// (least, most) that the farmer may have been given
    pub fn share(&self, who: &str) -> (BigUint, BigUint) {
        let d = self.due.get(who).cloned().unwrap_or_default();
        let most = (d.clone() + ((BigUint::from(1u8) << 64) - 1u8)) >> 64;
        let peak = self.peak.get(who).copied().unwrap_or(0);
        let n = self.touches + 2;
        let slack = BigUint::from(n) * BigUint::from(peak / pow10(24) + 1) + self.claims.get(who).copied().unwrap_or(0) + 2u8;
        let d = d >> 64;
        let least = if d > slack { d - slack } else { BigUint::default() };
        (least, most)
    }
}
impl Book {
    pub fn st(&self, seed: &str, who: &str) -> u128 {
        self.stake.get(&(seed.into(), who.into())).copied().unwrap_or(0)
    }
    pub fn created(&mut self, x: &Executed) -> Option<String> {
        if x.receiver != FA || x.method != "create_simple_farm" || !x.ok() {
            return None;
        }
        let (id, t) = (x.json().as_str().unwrap_or("").to_string(), x.args_json()["terms"].clone());
        self.farms.insert(id.clone(), BFarm {
            seed: t["seed_id"].as_str().unwrap().into(),
            token: t["reward_token"].as_str().unwrap().into(),
            start: t["start_at"].as_u64().unwrap(),
            per: num_of(&t["reward_per_session"]),
            interval: t["session_interval"].as_u64().unwrap(),
            funded: 0,
            released: 0,
            nobody: 0,
            cleared: false,
            due: BTreeMap::new(),
            paid: BTreeMap::new(),
            claims: BTreeMap::new(),
            touches: 0,
            top: self.total.get(t["seed_id"].as_str().unwrap()).copied().unwrap_or(0),
            peak: self.stake.iter().filter(|(k, _)| Some(k.0.as_str()) == t["seed_id"].as_str()).map(|(k, x)| (k.1.clone(), *x)).collect(),
        });
        Some(id)
    }
    /// time has come to `now`, with the stakes as they are
    pub fn advance(&mut self, now: u64) {
        for f in self.farms.values_mut().filter(|f| !f.cleared) {
            let out = f.out(now);
            if out <= f.released {
                continue;
            }
            let r = out - f.released;
            f.released = out;
            let s = self.total.get(&f.seed).copied().unwrap_or(0);
            if s == 0 {
                f.nobody += r;
                continue;
            }
            for ((_, who), x) in self.stake.iter().filter(|(k, x)| k.0 == f.seed && **x > 0) {
                *f.due.entry(who.clone()).or_default() += ((BigUint::from(r) * BigUint::from(*x)) << 64) / BigUint::from(s);
            }
        }
    }
    pub fn restake(&mut self, seed: &str, who: &str, to: u128) {
        let e = self.stake.entry((seed.into(), who.into())).or_insert(0);
        let t = self.total.entry(seed.into()).or_insert(0);
        *t = *t - *e + to;
        *e = to;
        for f in self.farms.values_mut().filter(|f| f.seed == seed) {
            let p = f.peak.entry(who.into()).or_insert(0);
            *p = (*p).max(to);
            f.top = f.top.max(*t);
        }
    }
    pub fn funded(&mut self, id: &str, x: u128, now: u64) {
        if let Some(f) = self.farms.get_mut(id) {
            if f.funded == 0 && f.start == 0 {
                f.start = now;
            }
            f.funded += x;
        }
    }
    pub fn touch(&mut self) {
        self.farms.values_mut().for_each(|f| f.touches += 1);
    }
    pub fn live(&self, seed: &str) -> Vec<String> {
        self.farms.iter().filter(|(_, f)| f.seed == seed && !f.cleared).map(|(k, _)| k.clone()).collect()
    }
    /// the farms a receipt of the contract claims from, and for whom
    pub fn claims(&self, x: &Executed) -> Option<(String, Vec<String>)> {
        if x.receiver != FA || !x.ok() {
            return None;
        }
        let v = x.args_json();
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        match x.method.as_str() {
            "claim_reward_by_farm" => {
                let id = s("farm_id");
                let l = if self.farms.get(&id).map_or(false, |f| !f.cleared) { vec![id] } else { vec![] };
                Some((x.predecessor.clone(), l))
            }
            "claim_reward_by_seed" | "withdraw_seed" => Some((x.predecessor.clone(), self.live(&s("seed_id")))),
            "ft_on_transfer" if s("msg").is_empty() => Some((s("sender_id"), self.live(&x.predecessor))),
            "mft_on_transfer" => Some((s("sender_id"), self.live(&mft_seed(x)))),
            "callback_post_withdraw_ft_seed" | "callback_post_withdraw_mft_seed" if failed_input(x) => Some((s("sender_id"), self.live(&s("seed_id")))),
            _ => None,
        }
    }
}
pub fn mft_seed(x: &Executed) -> String {
    format!("{}@{}", x.predecessor, x.args_json()["token_id"].as_str().unwrap_or("").trim_start_matches(':'))
}
pub fn failed_input(x: &Executed) -> bool {
    x.inputs.len() == 1 && matches!(x.inputs[0], PromiseRes::Failed)
}
/// stake that a receipt adds or takes: (farmer, seed, signed amount)
pub fn stake_change(x: &Executed) -> Option<(String, String, i128)> {
    if x.receiver != FA || !x.ok() {
        return None;
    }
    let v = x.args_json();
    let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
    let a = || num_of(&v["amount"]) as i128;
    match x.method.as_str() {
        "withdraw_seed" => Some((x.predecessor.clone(), s("seed_id"), -a())),
        "ft_on_transfer" if s("msg").is_empty() => Some((s("sender_id"), x.predecessor.clone(), a())),
        "mft_on_transfer" => Some((s("sender_id"), mft_seed(x), a())),
        "callback_post_withdraw_ft_seed" | "callback_post_withdraw_mft_seed" if failed_input(x) => Some((s("sender_id"), s("seed_id"), a())),
        _ => None,
    }
}
/// reward deposited: (farm, token, amount)
pub fn funding(x: &Executed) -> Option<(String, String, u128)> {
    if x.receiver != FA || x.method != "ft_on_transfer" || !x.ok() {
        return None;
    }
    let v = x.args_json();
    let m = v["msg"].as_str().unwrap_or("").to_string();
    if m.is_empty() { None } else { Some((m, x.predecessor.clone(), num_of(&v["amount"]))) }
}
pub fn num_j(v: &Value) -> u128 {
    num_of(v)
}

// ---- generators

fn who() -> impl Strategy<Value = u8> {
    prop_oneof![30 => 0u8..4, 1 => Just(4u8), 1 => Just(5u8)]
}
pub fn terms() -> BoxedStrategy<Terms> {
    (
        prop_oneof![4 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)],
        0u8..3,
        prop_oneof![5 => Just(0i32), 1 => 1i32..5000, 1 => -5000i32..0, 1 => 1i32..200],
        prop_oneof![12 => Just(1u8), 8 => Just(4u8), 3 => Just(6u8), 6 => 0u8..7, 1 => Just(7u8), 2 => Just(8u8), 1 => Just(9u8)],
        prop_oneof![30 => 0u8..7, 1 => Just(7u8)],
        prop_oneof![6 => Just(1u8), 3 => Just(2), 1 => Just(0), 1 => Just(3), 1 => Just(4), 2 => Just(5)],
    )
        .prop_map(|(seed, tok, start, per, interval, min)| Terms { seed, tok, start, per, interval, min })
        .boxed()
}
fn samt() -> BoxedStrategy<Amt> {
    prop_oneof![
        10 => any::<u16>().prop_map(Amt::Frac),
        2 => Just(Amt::All),
        3 => (0u8..6).prop_map(Amt::Small),
        4 => (0u8..31, 1u8..100).prop_map(|(e, d)| Amt::Log(e, d)),
    ]
    .boxed()
}
fn uamt() -> BoxedStrategy<Amt> {
    prop_oneof![10 => any::<u16>().prop_map(Amt::Frac), 8 => Just(Amt::All), 2 => (0u8..4).prop_map(Amt::Small), 1 => (0u8..2).prop_map(Amt::Over)].boxed()
}
fn farm_ix() -> BoxedStrategy<u8> {
    prop_oneof![40 => 0u8..7, 8 => any::<u8>(), 1 => 250u8..=255].boxed()
}
fn seed_ix() -> BoxedStrategy<u8> {
    prop_oneof![5 => Just(0u8), 2 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8), 1 => 0u8..200, 1 => 200u8..=255].boxed()
}
pub fn fop() -> BoxedStrategy<Fo> {
    let b = any::<bool>;
    prop_oneof![
        3 => (who(), who(), prop_oneof![2 => Just(1000u16), 2 => 0u16..60, 1 => 1000u16..9000], b()).prop_map(|(who, to, milli, only)| Fo::Register { who, to, milli, only }),
        2 => (terms(), any::<u8>()).prop_map(|(t, by)| Fo::Create { t, by }),
        4 => (who(), farm_ix(), 0u16..40, any::<u16>(), any::<u8>()).prop_map(|(who, farm, sessions, extra, wrong)| Fo::Reward { who, farm, sessions, extra, wrong }),
        9 => (who(), seed_ix(), samt(), prop::bool::weighted(0.97)).prop_map(|(who, seed, a, msg)| Fo::Stake { who, seed, a, msg }),
        9 => (who(), seed_ix(), uamt()).prop_map(|(who, seed, a)| Fo::Unstake { who, seed, a }),
        5 => (who(), farm_ix()).prop_map(|(who, farm)| Fo::ClaimFarm { who, farm }),
        5 => (who(), seed_ix()).prop_map(|(who, seed)| Fo::ClaimSeed { who, seed }),
        7 => (who(), prop_oneof![10 => 0u8..3, 1 => 200u8..=255], prop::option::of(uamt())).prop_map(|(who, tok, a)| Fo::Take { who, tok, a }),
        2 => (who(), farm_ix()).prop_map(|(who, farm)| Fo::Drop { who, farm }),
        2 => (who(), prop::option::of(0u16..60_000)).prop_map(|(who, milli)| Fo::StorOut { who, milli }),
        1 => who().prop_map(|who| Fo::Leave { who }),
        3 => (farm_ix(), any::<u8>()).prop_map(|(farm, by)| Fo::Clean { farm, by }),
        1 => (seed_ix(), 0u8..6).prop_map(|(seed, min)| Fo::MinDep { seed, min }),
        1 => prop::bool::weighted(0.3).prop_map(Fo::Pause),
        6 => prop_oneof![0u32..5, 0u32..200, 0u32..10_000, 0u32..1_000_000].prop_map(|secs| Fo::Wait { secs }),
        13 => (farm_ix(), prop_oneof![3 => 0u16..3, 2 => 0u16..20, 1 => 0u16..300], prop_oneof![2 => Just(0i8), 2 => -1i8..2, 1 => any::<i8>()]).prop_map(|(farm, n, d)| Fo::Until { farm, n, d }),
        2 => (who(), 0u8..5, prop::bool::weighted(0.6)).prop_map(|(who, tok, on)| Fo::Blocked { who, tok, on }),
        2 => (0u8..5, prop::bool::weighted(0.5)).prop_map(|(tok, on)| Fo::Down { tok, on }),
        1 => (who(), 0u8..5, amt()).prop_map(|(who, tok, a)| Fo::Donate { who, tok, a }),
        1 => (0u8..6, any::<u8>(), amt()).prop_map(|(kind, seed, a)| Fo::Forge { kind, seed, a }),
        14 => (any::<u8>(), prop::bool::weighted(0.15)).prop_map(|(k, fail)| Fo::Step { k, fail }),
        3 => Just(Fo::Drain),
    ]
    .boxed()
}
pub fn fhist(len: std::ops::Range<usize>, lean: bool) -> BoxedStrategy<FHist> {
    (
        any::<bool>(),
        prop_oneof![4 => Just(15u8), 1 => 0u8..32],
        if lean { prop_oneof![Just(0u8), any::<u8>()].boxed() } else { Just(0u8).boxed() },
        prop::collection::vec((terms(), prop_oneof![1 => Just(0u16), 5 => 1u16..60], any::<u16>()), 1..5),
        prop::collection::vec((0u8..4, seed_ix(), any::<u16>()), 0..6),
        any::<bool>(),
        prop::collection::vec(fop(), len),
    )
        .prop_map(|(frac, reg, lean, farms, stakes, eager, ops)| FHist { frac, reg, lean, farms, stakes, eager, ops })
        .boxed()
}
