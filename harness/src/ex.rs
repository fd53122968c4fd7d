//! The exchange fixture: one deployed exchange, its peers, and helpers to read its public state.
use crate::chain::*;
use crate::models::*;
use crate::vm::{Action, Code, PromiseRes};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub const EX: &str = "ex.near";
pub const OWNER: &str = "owner.near";
pub const GUARD: &str = "guard.near";
pub const FARM: &str = "farm.near";
pub const BURROW: &str = "burrow.near";
pub const ORACLE: &str = "oracle.near";
pub const PYTH: &str = "pyth.near";
pub const WRAP: &str = "wrap.near";
pub const REFER: &str = "refer.near";
pub const BOT: &str = "bot.near";
pub const FRESH: &str = "fresh.near";
pub const USERS: [&str; 4] = ["alice.near", "bob.near", "carol.near", "dave.near"];
/// every account that may hold something inside the exchange
pub const HOLDERS: [&str; 10] = ["alice.near", "bob.near", "carol.near", "dave.near", FRESH, BOT, OWNER, REFER, EX, GUARD];
/// accounts addressed by operations: users, the unregistered account, the receiver contract, owner
pub const ACTORS: [&str; 7] = ["alice.near", "bob.near", "carol.near", "dave.near", FRESH, BOT, OWNER];

pub const PYTH_ID: &str = "27e867f0f4f61076456d1a73b14c7edc1cf5cef4f4d6193a33424288f11bd0f4";

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub id: &'static str,
    pub dec: u8,
    pub whitelisted: bool,
}
pub const TOKENS: [Tok; 8] = [
    Tok { id: "usdc.near", dec: 6, whitelisted: true },
    Tok { id: "dai.near", dec: 18, whitelisted: true },
    Tok { id: WRAP, dec: 24, whitelisted: true },
    Tok { id: "stnear.near", dec: 24, whitelisted: true },
    Tok { id: "usn.near", dec: 24, whitelisted: true },
    Tok { id: "cheap.near", dec: 8, whitelisted: false },
    Tok { id: "eth.bridge.near", dec: 18, whitelisted: true }, // by postfix
    Tok { id: "linear.near", dec: 18, whitelisted: true },
];
pub fn tok(i: usize) -> Tok {
    TOKENS[i % TOKENS.len()]
}
pub fn dec_of(id: &str) -> u8 {
    TOKENS.iter().find(|t| t.id == id).map(|t| t.dec).unwrap_or(18)
}
pub fn pow10(n: u32) -> u128 {
    10u128.pow(n)
}

/// one whole token times `x`
pub fn units(id: &str, x: u128) -> u128 {
    x * pow10(dec_of(id) as u32)
}

#[derive(Clone, Debug, PartialEq)]
pub struct PoolS {
    pub kind: String,
    pub tokens: Vec<String>,
    pub amounts: Vec<u128>,
    pub c_amounts: Vec<u128>,
    pub decimals: Vec<u8>,
    pub fee: u32,
    pub supply: u128,
    pub amp: u64,
    /// rates or degen prices, 1e24 scaled
    pub rates: Vec<u128>,
}
impl PoolS {
    pub fn simple(&self) -> bool {
        self.kind == "SIMPLE_POOL"
    }
    pub fn degen(&self) -> bool {
        self.kind == "DEGEN_SWAP"
    }
    pub fn rated(&self) -> bool {
        self.kind == "RATED_SWAP"
    }
    pub fn stable(&self) -> bool {
        self.kind == "STABLE_SWAP"
    }
    pub fn target(&self) -> u32 {
        if self.rated() || self.degen() { 24 } else { 18 }
    }
    /// reserve `c` of token `i`, in the token's own precision
    pub fn from_c(&self, i: usize, c: u128) -> u128 {
        let (d, t) = (self.decimals[i] as u32, self.target());
        if d <= t { c / pow10(t - d) } else { c * pow10(d - t) }
    }
    pub fn to_c(&self, i: usize, x: u128) -> u128 {
        let (d, t) = (self.decimals[i] as u32, self.target());
        if d <= t { x * pow10(t - d) } else { x / pow10(d - t) }
    }
    pub fn idx(&self, t: &str) -> Option<usize> {
        self.tokens.iter().position(|x| x == t)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub dep: BTreeMap<String, BTreeMap<String, u128>>,
    pub lost: BTreeMap<String, BTreeMap<String, u128>>,
    pub pools: Vec<PoolS>,
    /// holder -> shares per pool
    pub shares: BTreeMap<String, Vec<u128>>,
    /// holder -> pool -> (farm, burrow)
    pub locks: BTreeMap<String, BTreeMap<u64, (u128, u128)>>,
    /// holder -> (deposit, usage)
    pub stor: BTreeMap<String, (u128, u128)>,
}
impl Snap {
    pub fn d(&self, a: &str, t: &str) -> u128 {
        self.dep.get(a).and_then(|m| m.get(t)).copied().unwrap_or(0)
    }
    pub fn sh(&self, a: &str, p: usize) -> u128 {
        self.shares.get(a).and_then(|m| m.get(p)).copied().unwrap_or(0)
    }
    pub fn lock(&self, a: &str, p: u64) -> (u128, u128) {
        self.locks.get(a).and_then(|m| m.get(&p)).copied().unwrap_or((0, 0))
    }
    /// everything the exchange owes in token `t`, over all holders, pools and the lost-and-found
    pub fn owed(&self, t: &str) -> u128 {
        self.dep.values().filter_map(|m| m.get(t)).sum::<u128>()
            + self.lost.values().filter_map(|m| m.get(t)).sum::<u128>()
            + self.pools.iter().map(|p| p.idx(t).map(|i| p.amounts[i]).unwrap_or(0)).sum::<u128>()
    }
}

/// what a transfer's answer says was used of `x`
pub fn used(answer: &[u8], x: u128) -> u128 {
    serde_json::from_slice::<Value>(answer).ok().and_then(|v| v.as_str().and_then(|s| s.parse::<u128>().ok())).unwrap_or(x).min(x)
}
pub fn num(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap_or_else(|_| panic!("not a number: {}", v)),
        Value::Number(n) => n.as_u64().unwrap() as u128,
        _ => panic!("not a number: {}", v),
    }
}
pub fn nums(v: &Value) -> Vec<u128> {
    v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default()
}
pub fn map_num(v: &Value) -> BTreeMap<String, u128> {
    v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), num(v))).collect()).unwrap_or_default()
}
pub fn us(v: &[u128]) -> Value {
    Value::Array(v.iter().map(|x| json!(x.to_string())).collect())
}

/// generated parameters of one exchange instance
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    pub admin_fee: u32,
    pub fees: Vec<u32>,
    pub amp: u64,
    /// log10-ish sizes of the initial liquidity per pool; 0 leaves the pool empty
    pub liq: Vec<u16>,
    pub rate: u32,
    pub price: u32,
    pub referral: u32,
}

#[derive(Clone)]
pub struct Ex {
    pub w: World,
}

thread_local! {
    static CODE: RefCell<BTreeMap<String, Code>> = RefCell::new(BTreeMap::new());
    static BASE: RefCell<Option<Ex>> = RefCell::new(None);
    pub static WASM_DIR: RefCell<String> = RefCell::new(String::new());
}

pub fn code(name: &str) -> Code {
    CODE.with(|c| {
        c.borrow_mut()
            .entry(name.to_string())
            .or_insert_with(|| {
                let p = WASM_DIR.with(|d| format!("{}/{}.wasm", d.borrow(), name));
                Code::compile(&std::fs::read(&p).unwrap_or_else(|e| {
                    eprintln!("cannot read {}: {}", p, e);
                    std::process::exit(3)
                }))
            })
            .clone()
    })
}

pub const POOLS: usize = 10;

impl Ex {
    /// A fresh exchange with peers, registered users, funded deposits and pools without liquidity.
    /// pools: 0 usdc/wrap, 1 dai/wrap, 2 cheap/wrap, 3 stable usdc+dai+usn, 4 rated wrap+stnear,
    /// 5 degen dai+wrap, 6 simple usdc/dai, 7 stable usdc+dai, 8 rated wrap+stnear+linear,
    /// 9 degen usdc+eth+wrap
    pub fn base() -> Ex {
        BASE.with(|b| {
            let mut b = b.borrow_mut();
            if b.is_none() {
                *b = Some(Ex::build(code("ref_exchange"), true));
            }
            b.clone().unwrap()
        })
    }

    /// `all`: every configuration call has to work; older releases do not know all of them
    pub fn build(ex: Code, all: bool) -> Ex {
        let mut w = World::new();
        w.deploy(EX, ex, 500 * NEAR);
        for a in [OWNER, GUARD, REFER, FRESH, "mallory.near"].iter().chain(USERS.iter()) {
            w.near.insert(a.to_string(), 10_000_000 * NEAR);
        }
        for t in TOKENS {
            w.add_model(t.id, Model::Token(Token { wnear: t.id == WRAP, rate: pow10(24), ..Default::default() }));
            w.near.insert(t.id.into(), 1_000_000_000_000 * NEAR);
        }
        w.add_model(FARM, Model::Shadow(EX.into(), ShadowHost::default()));
        w.add_model(BURROW, Model::Shadow(EX.into(), ShadowHost::default()));
        w.add_model(BOT, Model::Receiver(Receiver { mode: Recv::Unused(0), got: 0 }));
        let mut o = Oracle { recency: 60, timestamp: w.now, ..Default::default() };
        o.prices.insert(WRAP.into(), Some((50_000, 28)));
        o.prices.insert("eth.bridge.near".into(), Some((20_000_000, 22)));
        o.prices.insert("usdc.near".into(), Some((10_000, 10)));
        w.add_model(ORACLE, Model::Oracle(o));
        let mut p = Oracle::default();
        p.pyth.insert(PYTH_ID.into(), Some((100_000_000, -8, (w.now / 1_000_000_000) as i64)));
        w.add_model(PYTH, Model::Oracle(p));
        let mut e = Ex { w };
        e.must(OWNER, "new", json!({"owner_id": OWNER, "boost_farm_id": FARM, "burrowland_id": BURROW, "exchange_fee": 1600, "referral_fee": 400}), 0);
        let cfg = |e: &mut Ex, m: &str, a: Value| {
            let r = e.w.tx(OWNER, EX, m, a, 1);
            assert!(r.ok() || !all, "{} failed: {:?}", m, r.result);
            e.w.drain();
        };
        cfg(&mut e, "extend_guardians", json!({"guardians": [GUARD]}));
        cfg(&mut e, "modify_wnear_id", json!({"wnear_id": WRAP}));
        let wl: Vec<&str> = TOKENS.iter().filter(|t| t.whitelisted && (!all || !t.id.contains("bridge"))).map(|t| t.id).collect();
        cfg(&mut e, "extend_whitelisted_tokens", json!({"tokens": wl}));
        cfg(&mut e, "extend_auto_whitelisted_postfix", json!({"postfixes": [".bridge.near"]}));
        cfg(&mut e, "extend_client_echo_token_id_whitelist", json!({"token_ids": [WRAP, "usdc.near", "dai.near", "stnear.near"]}));
        cfg(&mut e, "extend_client_echo_sender_id_whitelist", json!({"sender_ids": ["alice.near", "bob.near", BOT]}));
        cfg(&mut e, "extend_secure_sender_whitelist", json!({"sender_ids": [BOT]}));
        cfg(&mut e, "insert_referral", json!({"referral_id": REFER, "fee_bps": 1000}));
        cfg(&mut e, "register_rated_token", json!({"rate_type": "STNEAR", "token_id": "stnear.near"}));
        cfg(&mut e, "register_rated_token", json!({"rate_type": "LINEAR", "token_id": "linear.near"}));
        cfg(&mut e, "register_degen_oracle_config", json!({"degen_oracle_config": {"PriceOracle": {"oracle_id": ORACLE, "expire_ts": "3600000000000", "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": 90}}}));
        cfg(&mut e, "register_degen_oracle_config", json!({"degen_oracle_config": {"PythOracle": {"oracle_id": PYTH, "expire_ts": "3600000000000", "pyth_price_valid_duration_sec": 60}}}));
        cfg(&mut e, "register_degen_token", json!({"token_id": WRAP, "degen_type": {"PriceOracle": {"decimals": 24}}}));
        cfg(&mut e, "register_degen_token", json!({"token_id": "eth.bridge.near", "degen_type": {"PriceOracle": {"decimals": 18}}}));
        cfg(&mut e, "register_degen_token", json!({"token_id": "usdc.near", "degen_type": {"PriceOracle": {"decimals": 6}}}));
        cfg(&mut e, "register_degen_token", json!({"token_id": "dai.near", "degen_type": {"PythOracle": {"price_identifier": PYTH_ID}}}));
        for a in USERS.iter().chain([OWNER, BOT, EX].iter()) {
            e.must(OWNER, "storage_deposit", json!({"account_id": a}), NEAR);
        }
        // funding: users hold deposits of every token (the non-whitelisted one after registering it)
        for a in USERS {
            e.must(a, "register_tokens", json!({"token_ids": ["cheap.near"]}), 1);
            for t in TOKENS {
                let x = units(t.id, 2_000_000_000);
                e.w.model_mut(t.id).token_mut().mint(a, 2 * x);
                let r = e.w.tx_drain(a, t.id, "ft_transfer_call", json!({"receiver_id": EX, "amount": x.to_string(), "msg": ""}), 1);
                assert!(r.iter().all(|x| x.ok()), "funding failed: {:?}", r);
            }
        }
        for a in [FRESH, BOT, OWNER] {
            for t in TOKENS {
                e.w.model_mut(t.id).token_mut().mint(a, units(t.id, 1_000_000_000));
            }
        }
        e.w.near.insert(BOT.into(), 1_000_000 * NEAR);
        e
    }

    /// Applies a generated setup: fees, rates, prices, initial liquidity.
    pub fn with(s: &Setup) -> Ex {
        Ex::with_others(s, 0, 0)
    }
    /// The same with other pools created before and after the usual ones.
    pub fn with_others(s: &Setup, before: usize, after: usize) -> Ex {
        let mut e = Ex::base();
        e.add_others(before);
        e.add_pools(s);
        e.add_others(after);
        for i in [0, 1, 3, 4, 5, 6] {
            e.must(OWNER, "mft_register", json!({"token_id": format!(":{}", before + i), "account_id": REFER}), NEAR);
        }
        e.must(OWNER, "modify_admin_fee", json!({"admin_fee_bps": s.admin_fee}), 1);
        if s.referral > 0 && s.referral != 1000 {
            e.must(OWNER, "update_referral", json!({"referral_id": REFER, "fee_bps": s.referral}), 1);
        }
        e.set_rates(s.rate, s.price);
        e.sync_prices();
        for i in 0..POOLS {
            let l = s.liq.get(i).copied().unwrap_or(0);
            if l == 0 {
                continue;
            }
            e.seed_pool(before + i, i, l, s);
        }
        e
    }
    fn add_others(&mut self, n: usize) {
        for j in 0..n {
            let t = [["usdc.near", WRAP], ["dai.near", WRAP], ["usdc.near", "dai.near"]][j % 3];
            self.must(OWNER, "add_simple_pool", json!({"tokens": t, "fee": 30 + j % 50}), NEAR);
        }
    }

    /// the pools; a release that does not know a kind of pool gets a constant-product pool instead
    pub fn add_pools(&mut self, s: &Setup) {
        let e = self;
        let d = NEAR;
        let fee = |i: usize| s.fees.get(i).copied().unwrap_or(30);
        e.must(OWNER, "add_simple_pool", json!({"tokens": ["usdc.near", WRAP], "fee": fee(0)}), d);
        e.must(OWNER, "add_simple_pool", json!({"tokens": ["dai.near", WRAP], "fee": fee(1)}), d);
        e.must(OWNER, "add_simple_pool", json!({"tokens": ["cheap.near", WRAP], "fee": fee(2)}), d);
        e.must(OWNER, "add_stable_swap_pool", json!({"tokens": ["usdc.near", "dai.near", "usn.near"], "decimals": [6, 18, 24], "fee": fee(3), "amp_factor": s.amp}), d);
        e.must(OWNER, "add_rated_swap_pool", json!({"tokens": [WRAP, "stnear.near"], "decimals": [24, 24], "fee": fee(4), "amp_factor": s.amp}), d);
        e.add_degen(json!({"tokens": ["dai.near", WRAP], "decimals": [18, 24], "fee": fee(5), "amp_factor": s.amp}));
        e.must(OWNER, "add_simple_pool", json!({"tokens": ["usdc.near", "dai.near"], "fee": fee(6)}), d);
        e.must(OWNER, "add_stable_swap_pool", json!({"tokens": ["usdc.near", "dai.near"], "decimals": [6, 18], "fee": fee(7), "amp_factor": s.amp}), d);
        e.must(OWNER, "add_rated_swap_pool", json!({"tokens": [WRAP, "stnear.near", "linear.near"], "decimals": [24, 24, 18], "fee": fee(8), "amp_factor": s.amp}), d);
        e.add_degen(json!({"tokens": ["usdc.near", "eth.bridge.near", WRAP], "decimals": [6, 18, 24], "fee": fee(9), "amp_factor": s.amp}));
    }
    fn add_degen(&mut self, args: Value) {
        if !self.w.tx(OWNER, EX, "add_degen_swap_pool", args.clone(), NEAR).ok() {
            assert!(self.tv("list_degen_tokens", json!({})).is_err(), "no degen pool");
            self.must(OWNER, "add_simple_pool", json!({"tokens": [args["tokens"][0], WRAP], "fee": args["fee"]}), NEAR);
        }
        self.w.drain();
    }

    /// brings every rate and degen price up to date (answers come from the peer models)
    pub fn sync_prices(&mut self) {
        let now = self.w.now;
        self.w.model_mut(ORACLE).oracle_mut().timestamp = now;
        if let Some(Some(p)) = self.w.model_mut(PYTH).oracle_mut().pyth.get_mut(PYTH_ID) {
            p.2 = (now / 1_000_000_000) as i64;
        }
        for t in ["stnear.near", "linear.near"] {
            self.w.tx_drain(OWNER, EX, "update_token_rate", json!({"token_id": t}), 0);
        }
        self.w.tx_drain(OWNER, EX, "batch_update_degen_token_price", json!({"token_ids": [WRAP, "eth.bridge.near", "usdc.near", "dai.near"]}), 0);
    }

    /// dave provides the first liquidity, `l` decides size and skew
    pub fn seed_pool(&mut self, at: usize, i: usize, l: u16, s: &Setup) {
        let p = self.pool(at);
        let base = match l % 5 {
            0 => 100u128,
            1 => 10_000,
            2 => 1_000_000,
            3 => 3_000_000,
            _ => 1_000,
        };
        let skew = [1u128, 2, 5, 1, 1, 9, 1, 3][(l / 5) as usize % 8];
        let mut amounts = vec![];
        for (k, t) in p.tokens.iter().enumerate() {
            let m = if k == 0 { base } else { base * skew };
            // degen pools hold comparable values
            let a = if p.degen() {
                let price = p.rates[k].max(1);
                crate::ops::mul_div(units(t, m), pow10(24), price)
            } else if p.simple() && t == WRAP && s.price > 0 {
                units(t, m) / 5
            } else {
                units(t, m)
            };
            amounts.push(a.max(1));
        }
        let m = if p.simple() { "add_liquidity" } else { "add_stable_liquidity" };
        let args = if p.simple() {
            json!({"pool_id": at, "amounts": us(&amounts)})
        } else {
            json!({"pool_id": at, "amounts": us(&amounts), "min_shares": "1"})
        };
        let r = self.w.tx_drain("dave.near", EX, m, args.clone(), NEAR);
        assert!(r[0].ok(), "seeding pool {} with {:?} failed: {:?}", i, amounts, r[0].result);
        // others join, in proportion
        for (k, who) in USERS[..3].iter().enumerate() {
            if (l / 3 + i as u16 + k as u16) % 3 != 0 {
                let part: Vec<u128> = amounts.iter().map(|a| a / [2, 9, 40][(l as usize + k) % 3] + 1).collect();
                let mut args = args.clone();
                args["amounts"] = us(&part);
                self.w.tx_drain(who, EX, m, args, NEAR);
            }
        }
    }

    pub fn must(&mut self, signer: &str, method: &str, args: Value, deposit: u128) -> Value {
        let r = self.w.tx_drain(signer, EX, method, args.clone(), deposit);
        assert!(r.iter().all(|x| x.ok()), "{} {} failed: {:?}", method, args, r);
        r[0].json()
    }
    pub fn v(&self, method: &str, args: Value) -> Value {
        self.w.view(EX, method, args.clone()).unwrap_or_else(|e| panic!("view {} {}: {}", method, args, e))
    }
    pub fn tv(&self, method: &str, args: Value) -> Result<Value, String> {
        self.w.view(EX, method, args)
    }
    pub fn pools(&self) -> Vec<PoolS> {
        let v = self.v("get_pool_detail_infos", json!({"from_index": 0, "limit": 100}));
        v.as_array().unwrap().iter().map(parse_pool).collect()
    }
    pub fn pool(&self, i: usize) -> PoolS {
        parse_pool(&self.v("get_pool_detail_info", json!({"pool_id": i})))
    }
    pub fn deposits(&self, a: &str) -> BTreeMap<String, u128> {
        map_num(&self.v("get_deposits", json!({"account_id": a})))
    }
    pub fn deposit_of(&self, a: &str, t: &str) -> u128 {
        num(&self.v("get_deposit", json!({"account_id": a, "token_id": t})))
    }
    pub fn shares_of(&self, a: &str, p: u64) -> u128 {
        num(&self.v("get_pool_shares", json!({"pool_id": p, "account_id": a})))
    }
    pub fn registered(&self, a: &str) -> bool {
        !self.v("get_user_storage_state", json!({"account_id": a})).is_null()
    }
    pub fn locks_of(&self, a: &str) -> BTreeMap<u64, (u128, u128)> {
        self.v("get_shadow_records", json!({"account_id": a}))
            .as_object()
            .map(|m| m.iter().map(|(k, v)| (k.parse().unwrap(), (num(&v["shadow_in_farm"]), num(&v["shadow_in_burrow"])))).collect())
            .unwrap_or_default()
    }
    pub fn ft(&self, t: &str, a: &str) -> u128 {
        self.w.model(t).token().of(a)
    }
    pub fn snap(&self, what: &SnapSpec) -> Snap {
        let mut s = Snap::default();
        if what.pools {
            s.pools = self.pools();
        }
        let ids: Vec<usize> = (0..if what.pools { s.pools.len() } else { POOLS }).collect();
        for a in HOLDERS {
            if what.dep {
                let d = self.deposits(a);
                if !d.is_empty() {
                    s.dep.insert(a.into(), d);
                }
            }
            if what.lost {
                let d = map_num(&self.v("list_lostfound_tokens", json!({"account_id": a})));
                if !d.is_empty() {
                    s.lost.insert(a.into(), d);
                }
            }
            if what.shares {
                let v = nums(&self.v("get_pool_shares_batch", json!({"pool_ids": ids, "account_id": a})));
                s.shares.insert(a.into(), v);
            }
            if what.locks && ACTORS.contains(&a) {
                let l = self.locks_of(a);
                if !l.is_empty() {
                    s.locks.insert(a.into(), l);
                }
            }
            if what.stor {
                let v = self.v("get_user_storage_state", json!({"account_id": a}));
                if !v.is_null() {
                    s.stor.insert(a.into(), (num(&v["deposit"]), num(&v["usage"])));
                }
            }
        }
        s
    }

    /// the snapshot after an operation; taken anew only if the exchange's state can have changed
    pub fn snap_after(&self, spec: &SnapSpec, op: &crate::ops::Op, executed: &[Executed], before: &Snap) -> Snap {
        let clock = matches!(op, crate::ops::Op::Advance { .. } | crate::ops::Op::Rates { .. });
        if clock || executed.iter().any(|x| x.receiver == EX && x.ok()) {
            self.snap(spec)
        } else {
            before.clone()
        }
    }

    /// Tokens the exchange has already written off internally but that have not left it yet, or that
    /// came back and wait for the callback; per token.
    pub fn in_flight(&self) -> BTreeMap<String, u128> {
        let mut m: BTreeMap<String, u128> = BTreeMap::new();
        for r in &self.w.pending {
            for a in &r.actions {
                if let Action::Call { method, args, .. } = a {
                    let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
                    if r.predecessor == EX && TOKENS.iter().any(|t| t.id == r.receiver) && ["ft_transfer", "ft_transfer_call", "near_withdraw"].contains(&method.as_str()) {
                        *m.entry(r.receiver.clone()).or_insert(0) += num(&v["amount"]);
                    }
                    if r.receiver == EX && r.predecessor == EX && method.starts_with("exchange_callback_post_withdraw") {
                        let t = v["token_id"].as_str().unwrap_or(WRAP).to_string();
                        match r.inputs.first().and_then(|d| self.w.data.get(d)) {
                            Some(PromiseRes::Failed) => *m.entry(t).or_insert(0) += num(&v["amount"]),
                            // an echoed transfer answers with what its receiver kept
                            Some(PromiseRes::Ok(b)) if method == "exchange_callback_post_withdraw" => *m.entry(t).or_insert(0) += num(&v["amount"]) - used(b, num(&v["amount"])),
                            _ => {}
                        }
                    }
                }
            }
        }
        m
    }
    /// NEAR the exchange holds only until a pending callback hands it on (unwrapped NEAR), and
    /// tokens deposited with it whose ft_on_transfer has not run yet
    pub fn near_in_flight(&self) -> u128 {
        let mut n = 0;
        for r in &self.w.pending {
            for a in &r.actions {
                if let Action::Call { method, args, .. } = a {
                    if r.receiver == EX && method == "exchange_callback_post_withdraw_near" {
                        if let Some(PromiseRes::Ok(_)) = r.inputs.first().and_then(|d| self.w.data.get(d)) {
                            let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
                            n += num(&v["amount"]);
                        }
                    }
                }
            }
        }
        n
    }
    /// tokens that arrived at the exchange through ft_transfer_call whose fate is not settled yet
    pub fn arriving(&self) -> BTreeMap<String, u128> {
        let mut m: BTreeMap<String, u128> = BTreeMap::new();
        for r in &self.w.pending {
            for a in &r.actions {
                if let Action::Call { method, args, .. } = a {
                    let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
                    if method == "ft_on_transfer" && r.receiver == EX {
                        *m.entry(r.predecessor.clone()).or_insert(0) += num(&v["amount"]);
                    }
                    if method == "ft_resolve_transfer" && v["receiver_id"] == EX {
                        if let Some(res) = r.inputs.first().and_then(|d| self.w.data.get(d)) {
                            let amount = num(&v["amount"]);
                            let back = match res {
                                PromiseRes::Failed => amount,
                                PromiseRes::Ok(b) => serde_json::from_slice::<Value>(b).ok().and_then(|v| v.as_str().and_then(|s| s.parse::<u128>().ok())).unwrap_or(amount).min(amount),
                            };
                            *m.entry(r.receiver.clone()).or_insert(0) += back;
                        }
                    }
                }
            }
        }
        m
    }
}

#[derive(Clone, Copy, Debug)]
pub struct SnapSpec {
    pub dep: bool,
    pub lost: bool,
    pub pools: bool,
    pub shares: bool,
    pub locks: bool,
    pub stor: bool,
}
pub const SNAP_NONE: SnapSpec = SnapSpec { dep: false, lost: false, pools: false, shares: false, locks: false, stor: false };
pub const SNAP_ALL: SnapSpec = SnapSpec { dep: true, lost: true, pools: true, shares: true, locks: true, stor: true };
pub const SNAP_TOKENS: SnapSpec = SnapSpec { dep: true, lost: true, pools: true, ..SNAP_NONE };

pub fn parse_pool(v: &Value) -> PoolS {
    let (k, p) = v.as_object().unwrap().iter().next().unwrap();
    let kind = match k.as_str() {
        "SimplePoolInfo" => "SIMPLE_POOL",
        "StablePoolInfo" => "STABLE_SWAP",
        "RatedPoolInfo" => "RATED_SWAP",
        "DegenPoolInfo" => "DEGEN_SWAP",
        x => panic!("unknown pool kind {}", x),
    };
    PoolS {
        kind: kind.into(),
        tokens: p["token_account_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        amounts: nums(&p["amounts"]),
        c_amounts: nums(&p["c_amounts"]),
        decimals: p["decimals"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default(),
        fee: p["total_fee"].as_u64().unwrap() as u32,
        supply: num(&p["shares_total_supply"]),
        amp: p["amp"].as_u64().unwrap_or(0),
        rates: if p["rates"].is_array() { nums(&p["rates"]) } else { nums(&p["degens"]) },
    }
}

impl Ex {
    /// registers `who` for shares of pool `p` unless it is already
    pub fn share_reg(&mut self, p: usize, who: &str) {
        let id = format!(":{}", p);
        if self.v("mft_has_registered", json!({"token_id": id, "account_id": who})) == json!(false) {
            self.must(OWNER, "mft_register", json!({"token_id": id, "account_id": who}), NEAR / 100);
        }
    }
}
