//! Rust models of the contracts the system talks to (tokens, wrapped NEAR, farms, lenders,
//! oracles, receivers). They are the environment, never the thing under test.
use crate::vm::{Action, NewReceipt, PromiseRes, Ret};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct ModelCtx {
    pub me: String,
    pub predecessor: String,
    pub signer: String,
    pub deposit: u128,
    pub balance: u128,
    pub now: u64,
    pub block: u64,
    pub results: Vec<PromiseRes>,
}

pub struct ModelOut {
    pub ret: Ret,
    pub receipts: Vec<NewReceipt>,
}

fn val(v: Value) -> Result<ModelOut, String> {
    Ok(ModelOut { ret: Ret::Value(v.to_string().into_bytes()), receipts: vec![] })
}
fn none() -> Result<ModelOut, String> {
    Ok(ModelOut { ret: Ret::None, receipts: vec![] })
}
pub fn u(v: &Value) -> Result<u128, String> {
    v.as_str().and_then(|s| s.parse().ok()).ok_or_else(|| format!("bad amount {}", v))
}
fn s(v: &Value) -> Result<String, String> {
    v.as_str().map(|x| x.to_string()).ok_or_else(|| format!("bad string {}", v))
}
fn call(receiver: &str, method: &str, args: Value, deposit: u128, deps: Vec<usize>) -> NewReceipt {
    NewReceipt {
        receiver: receiver.into(),
        actions: vec![Action::Call { method: method.into(), args: args.to_string().into_bytes(), deposit, gas: 200_000_000_000_000 }],
        deps,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Token {
    pub bal: BTreeMap<String, u128>,
    /// accounts without a storage registration: transfers to them fail
    pub blocked: std::collections::BTreeSet<String>,
    /// the token itself is broken / paused: every outgoing call fails
    pub paused: bool,
    pub wnear: bool,
    pub rate: u128,
    /// number of times a refund hit a receiver that had already spent the tokens
    pub burned: u128,
}

impl Token {
    pub fn of(&self, a: &str) -> u128 {
        self.bal.get(a).copied().unwrap_or(0)
    }
    pub fn mint(&mut self, a: &str, x: u128) {
        *self.bal.entry(a.into()).or_insert(0) += x;
    }
    pub fn total(&self) -> u128 {
        self.bal.values().sum()
    }
    fn mv(&mut self, from: &str, to: &str, x: u128) -> Result<(), String> {
        if from == to {
            return Err("transfer to self".into());
        }
        if x == 0 {
            return Err("The amount should be a positive number".into());
        }
        if self.blocked.contains(to) {
            return Err(format!("The account {} is not registered", to));
        }
        let f = self.of(from);
        if f < x {
            return Err("not enough balance".into());
        }
        self.bal.insert(from.into(), f - x);
        self.mint(to, x);
        Ok(())
    }
    fn call(&mut self, c: &ModelCtx, method: &str, a: &Value) -> Result<ModelOut, String> {
        match method {
            "ft_transfer" => {
                if self.paused {
                    return Err("token paused".into());
                }
                if c.deposit != 1 {
                    return Err("Requires attached deposit of exactly 1 yoctoNEAR".into());
                }
                self.mv(&c.predecessor, &s(&a["receiver_id"])?, u(&a["amount"])?)?;
                none()
            }
            "ft_transfer_call" => {
                if self.paused {
                    return Err("token paused".into());
                }
                if c.deposit != 1 {
                    return Err("Requires attached deposit of exactly 1 yoctoNEAR".into());
                }
                let to = s(&a["receiver_id"])?;
                self.mv(&c.predecessor, &to, u(&a["amount"])?)?;
                let r0 = call(&to, "ft_on_transfer", json!({"sender_id": c.predecessor, "amount": a["amount"], "msg": a["msg"]}), 0, vec![]);
                let r1 = call(&c.me, "ft_resolve_transfer", json!({"sender_id": c.predecessor, "receiver_id": to, "amount": a["amount"]}), 0, vec![0]);
                Ok(ModelOut { ret: Ret::Receipt(1), receipts: vec![r0, r1] })
            }
            "ft_resolve_transfer" => {
                if c.predecessor != c.me {
                    return Err("private".into());
                }
                let amount = u(&a["amount"])?;
                let unused = match &c.results[0] {
                    PromiseRes::Ok(v) => serde_json::from_slice::<Value>(v).ok().and_then(|v| u(&v).ok()).unwrap_or(amount).min(amount),
                    PromiseRes::Failed => amount,
                };
                let (snd, rcv) = (s(&a["sender_id"])?, s(&a["receiver_id"])?);
                let refund = unused.min(self.of(&rcv));
                if refund > 0 {
                    let b = self.of(&rcv);
                    self.bal.insert(rcv, b - refund);
                    self.mint(&snd, refund);
                }
                val(json!((amount - refund).to_string()))
            }
            "near_withdraw" if self.wnear => {
                if self.paused {
                    return Err("token paused".into());
                }
                if c.deposit != 1 {
                    return Err("one yocto".into());
                }
                let x = u(&a["amount"])?;
                let b = self.of(&c.predecessor);
                if b < x {
                    return Err("not enough".into());
                }
                self.bal.insert(c.predecessor.clone(), b - x);
                self.burned += x;
                Ok(ModelOut { ret: Ret::Receipt(0), receipts: vec![NewReceipt { receiver: c.predecessor.clone(), actions: vec![Action::Transfer(x)], deps: vec![] }] })
            }
            "get_st_near_price" | "ft_price" | "get_nearx_price" => {
                if self.paused {
                    return Err("rate unavailable".into());
                }
                val(json!(self.rate.to_string()))
            }
            "ft_balance_of" => val(json!(self.of(&s(&a["account_id"])?).to_string())),
            _ => Err(format!("MethodNotFound {}", method)),
        }
    }
}

/// boost farm / lending market: keeps its own record of cast shadows
#[derive(Clone, Debug, Default)]
pub struct ShadowHost {
    pub rec: BTreeMap<(String, String), u128>,
    pub fail: bool,
}
impl ShadowHost {
    fn call(&mut self, exchange: &str, c: &ModelCtx, method: &str, a: &Value) -> Result<ModelOut, String> {
        if c.predecessor != exchange {
            return Err("only the exchange".into());
        }
        if self.fail {
            return Err("shadow host refuses".into());
        }
        let key = (s(&a["account_id"])?, s(&a["shadow_id"])?);
        let x = u(&a["amount"])?;
        let e = self.rec.entry(key).or_insert(0);
        match method {
            "on_cast_shadow" => *e += x,
            "on_remove_shadow" => *e = e.checked_sub(x).ok_or("not that much shadow")?,
            _ => return Err(format!("MethodNotFound {}", method)),
        }
        none()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Recv {
    /// returns min(amount, n) as unused
    Unused(u128),
    Half,
    /// returns more than it got
    Over,
    Garbage,
    Empty,
    Fail,
}
/// a contract account that receives mft / ft transfers
#[derive(Clone, Debug)]
pub struct Receiver {
    pub mode: Recv,
    pub got: u128,
}
impl Receiver {
    fn call(&mut self, _c: &ModelCtx, method: &str, a: &Value) -> Result<ModelOut, String> {
        match method {
            "mft_on_transfer" | "ft_on_transfer" => {
                let x = u(&a["amount"])?;
                self.got += x;
                match &self.mode {
                    Recv::Unused(n) => val(json!(x.min(*n).to_string())),
                    Recv::Half => val(json!((x / 2 + 1).to_string())),
                    Recv::Over => val(json!(x.saturating_add(12345).to_string())),
                    Recv::Garbage => val(json!({"what": 1})),
                    Recv::Empty => none(),
                    Recv::Fail => Err("receiver refuses".into()),
                }
            }
            _ => Err(format!("MethodNotFound {}", method)),
        }
    }
}

/// multi-token contract of the exchange, as seen from the farming contract
#[derive(Clone, Debug, Default)]
pub struct Mft {
    pub bal: BTreeMap<(String, String), u128>,
    pub paused: bool,
    pub blocked: std::collections::BTreeSet<String>,
}
impl Mft {
    pub fn of(&self, t: &str, a: &str) -> u128 {
        self.bal.get(&(t.into(), a.into())).copied().unwrap_or(0)
    }
    fn mv(&mut self, t: &str, from: &str, to: &str, x: u128) -> Result<(), String> {
        if x == 0 {
            return Err("transfer_amount must be greater than zero".into());
        }
        if self.paused || self.blocked.contains(to) || from == to {
            return Err("mft refuses".into());
        }
        let b = self.of(t, from);
        if b < x {
            return Err("not enough".into());
        }
        self.bal.insert((t.into(), from.into()), b - x);
        *self.bal.entry((t.into(), to.into())).or_insert(0) += x;
        Ok(())
    }
    fn call(&mut self, c: &ModelCtx, method: &str, a: &Value) -> Result<ModelOut, String> {
        match method {
            "mft_transfer" => {
                if c.deposit != 1 {
                    return Err("one yocto".into());
                }
                self.mv(&s(&a["token_id"])?, &c.predecessor, &s(&a["receiver_id"])?, u(&a["amount"])?)?;
                none()
            }
            "mft_transfer_call" => {
                if c.deposit != 1 {
                    return Err("one yocto".into());
                }
                let (t, to) = (s(&a["token_id"])?, s(&a["receiver_id"])?);
                self.mv(&t, &c.predecessor, &to, u(&a["amount"])?)?;
                let r0 = call(&to, "mft_on_transfer", json!({"token_id": t, "sender_id": c.predecessor, "amount": a["amount"], "msg": a["msg"]}), 0, vec![]);
                let r1 = call(&c.me, "mft_resolve_transfer", json!({"token_id": t, "sender_id": c.predecessor, "receiver_id": to, "amount": a["amount"]}), 0, vec![0]);
                Ok(ModelOut { ret: Ret::Receipt(1), receipts: vec![r0, r1] })
            }
            "mft_resolve_transfer" => {
                if c.predecessor != c.me {
                    return Err("private".into());
                }
                let amount = u(&a["amount"])?;
                let unused = match &c.results[0] {
                    PromiseRes::Ok(v) => serde_json::from_slice::<Value>(v).ok().and_then(|v| u(&v).ok()).unwrap_or(amount).min(amount),
                    PromiseRes::Failed => amount,
                };
                let (t, snd, rcv) = (s(&a["token_id"])?, s(&a["sender_id"])?, s(&a["receiver_id"])?);
                let refund = unused.min(self.of(&t, &rcv));
                let b = self.of(&t, &rcv);
                self.bal.insert((t.clone(), rcv), b - refund);
                *self.bal.entry((t, snd)).or_insert(0) += refund;
                val(json!((amount - refund).to_string()))
            }
            _ => Err(format!("MethodNotFound {}", method)),
        }
    }
}

/// an oracle answering with fixed values
#[derive(Clone, Debug, Default)]
pub struct Oracle {
    pub fail: bool,
    /// asset -> (multiplier, decimals) or missing price
    pub prices: BTreeMap<String, Option<(u128, u8)>>,
    pub recency: u32,
    /// published timestamp in nanoseconds
    pub timestamp: u64,
    /// price id (hex) -> (price, expo, publish_time)
    pub pyth: BTreeMap<String, Option<(i64, i32, i64)>>,
}
impl Oracle {
    fn call(&mut self, c: &ModelCtx, method: &str, a: &Value) -> Result<ModelOut, String> {
        if self.fail {
            return Err("oracle down".into());
        }
        let pj = |p: &(i64, i32, i64)| json!({"price": p.0.to_string(), "conf": "1", "expo": p.1, "publish_time": p.2});
        match method {
            "get_price_data" => {
                let ids: Vec<String> = match a["asset_ids"].as_array() {
                    Some(v) => v.iter().map(s).collect::<Result<_, _>>()?,
                    None => self.prices.keys().cloned().collect(),
                };
                let prices: Vec<Value> = ids
                    .iter()
                    .map(|id| match self.prices.get(id) {
                        Some(Some((m, d))) => json!({"asset_id": id, "price": {"multiplier": m.to_string(), "decimals": d}}),
                        _ => json!({"asset_id": id, "price": null}),
                    })
                    .collect();
                val(json!({"timestamp": self.timestamp.to_string(), "recency_duration_sec": self.recency, "prices": prices}))
            }
            "get_price" => {
                let id = s(&a["price_identifier"])?;
                val(match self.pyth.get(&id) {
                    Some(Some(p)) => pj(p),
                    _ => Value::Null,
                })
            }
            "list_prices_no_older_than" => {
                let age = a["age"].as_u64().unwrap_or(0) as i64;
                let now = (c.now / 1_000_000_000) as i64;
                let mut m = serde_json::Map::new();
                for id in a["price_ids"].as_array().cloned().unwrap_or_default() {
                    let id = s(&id)?;
                    let v = match self.pyth.get(&id) {
                        Some(Some(p)) if now - p.2 <= age => pj(p),
                        _ => Value::Null,
                    };
                    m.insert(id, v);
                }
                val(Value::Object(m))
            }
            _ => Err(format!("MethodNotFound {}", method)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Model {
    Token(Token),
    Shadow(String, ShadowHost),
    Receiver(Receiver),
    Oracle(Oracle),
    Mft(Mft),
}

impl Model {
    pub fn call(&mut self, c: &ModelCtx, method: &str, a: &Value) -> Result<ModelOut, String> {
        match self {
            Model::Token(t) => t.call(c, method, a),
            Model::Shadow(ex, t) => {
                let ex = ex.clone();
                t.call(&ex, c, method, a)
            }
            Model::Receiver(t) => t.call(c, method, a),
            Model::Oracle(t) => t.call(c, method, a),
            Model::Mft(t) => t.call(c, method, a),
        }
    }
    pub fn token(&self) -> &Token {
        match self {
            Model::Token(t) => t,
            _ => panic!("not a token"),
        }
    }
    pub fn token_mut(&mut self) -> &mut Token {
        match self {
            Model::Token(t) => t,
            _ => panic!("not a token"),
        }
    }
    pub fn shadow(&self) -> &ShadowHost {
        match self {
            Model::Shadow(_, t) => t,
            _ => panic!("not a shadow host"),
        }
    }
    pub fn shadow_mut(&mut self) -> &mut ShadowHost {
        match self {
            Model::Shadow(_, t) => t,
            _ => panic!("not a shadow host"),
        }
    }
    pub fn oracle_mut(&mut self) -> &mut Oracle {
        match self {
            Model::Oracle(t) => t,
            _ => panic!("not an oracle"),
        }
    }
    pub fn oracle(&self) -> &Oracle {
        match self {
            Model::Oracle(t) => t,
            _ => panic!("not an oracle"),
        }
    }
    pub fn mft(&self) -> &Mft {
        match self {
            Model::Mft(t) => t,
            _ => panic!("not an mft"),
        }
    }
    pub fn mft_mut(&mut self) -> &mut Mft {
        match self {
            Model::Mft(t) => t,
            _ => panic!("not an mft"),
        }
    }
    pub fn receiver_mut(&mut self) -> &mut Receiver {
        match self {
            Model::Receiver(t) => t,
            _ => panic!("not a receiver"),
        }
    }
}
