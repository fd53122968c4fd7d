//! A small deterministic chain: accounts with NEAR balances, wasm contracts, Rust-modelled peer
//! contracts, and asynchronous receipts whose execution order and outcome the test case chooses.
use crate::models::{Model, ModelCtx};
use crate::vm::{Action, Code, Ctx, NewReceipt, Outcome, PromiseRes, Ret, Storage};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub const BYTE_COST: u128 = 10_000_000_000_000_000_000;
pub const NEAR: u128 = 1_000_000_000_000_000_000_000_000;
pub const GAS: u64 = 300_000_000_000_000;

#[derive(Clone)]
pub struct WasmContract {
    pub code: Code,
    pub storage: Storage,
    pub usage: u64,
}

#[derive(Clone, Debug)]
pub struct Receipt {
    pub id: u64,
    pub predecessor: String,
    pub receiver: String,
    pub signer: String,
    pub actions: Vec<Action>,
    /// ids of the receipts whose results this receipt reads, in order
    pub inputs: Vec<u64>,
    /// ids under which this receipt's result is published
    pub outputs: Vec<u64>,
    /// the transaction that started it
    pub root: u64,
}

#[derive(Clone, Debug)]
pub struct Executed {
    pub id: u64,
    pub root: u64,
    pub predecessor: String,
    pub signer: String,
    pub receiver: String,
    pub method: String,
    pub args: Vec<u8>,
    pub deposit: u128,
    /// Ok(value) of the last action, Err(panic message) otherwise
    pub result: Result<Vec<u8>, String>,
    pub inputs: Vec<PromiseRes>,
    pub delegated: bool,
    pub logs: Vec<String>,
    pub spawned: Vec<u64>,
    pub injected: bool,
}

impl Executed {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    pub fn json(&self) -> Value {
        self.result.as_ref().ok().and_then(|b| serde_json::from_slice(b).ok()).unwrap_or(Value::Null)
    }
    pub fn args_json(&self) -> Value {
        serde_json::from_slice(&self.args).unwrap_or(Value::Null)
    }
}

#[derive(Clone)]
pub struct World {
    pub wasm: BTreeMap<String, Arc<WasmContract>>,
    pub models: BTreeMap<String, Arc<Model>>,
    pub near: BTreeMap<String, u128>,
    pub now: u64,
    pub block: u64,
    pub pending: Vec<Receipt>,
    pub data: HashMap<u64, PromiseRes>,
    next_id: u64,
    /// results of root transactions, once resolved through their promise chains
    pub final_results: HashMap<u64, PromiseRes>,
    root_out: HashMap<u64, u64>,
    pub prepaid_gas: u64,
}

impl World {
    pub fn new() -> World {
        World {
            wasm: BTreeMap::new(),
            models: BTreeMap::new(),
            near: BTreeMap::new(),
            now: 1_700_000_000_000_000_000,
            block: 100,
            pending: vec![],
            data: HashMap::new(),
            next_id: 1,
            final_results: HashMap::new(),
            root_out: HashMap::new(),
            prepaid_gas: GAS,
        }
    }

    pub fn deploy(&mut self, id: &str, code: Code, balance: u128) {
        self.wasm.insert(id.into(), Arc::new(WasmContract { code, storage: Storage::default(), usage: 0 }));
        self.near.insert(id.into(), balance);
    }
    pub fn add_model(&mut self, id: &str, m: Model) {
        self.models.insert(id.into(), Arc::new(m));
        self.near.entry(id.into()).or_insert(1_000_000 * NEAR);
    }
    pub fn model(&self, id: &str) -> &Model {
        &self.models[id]
    }
    pub fn model_mut(&mut self, id: &str) -> &mut Model {
        Arc::make_mut(self.models.get_mut(id).expect("model"))
    }
    pub fn balance(&self, id: &str) -> u128 {
        self.near.get(id).copied().unwrap_or(0)
    }
    pub fn advance(&mut self, secs: u64) {
        self.now += secs * 1_000_000_000;
        self.block += secs.max(1);
    }
    pub fn total_near(&self) -> u128 {
        let in_flight: u128 = self.pending.iter().flat_map(|r| r.actions.iter()).map(action_cost).sum();
        self.near.values().sum::<u128>() + in_flight
    }

    pub fn view_raw(&self, contract: &str, method: &str, args: &[u8]) -> Result<Vec<u8>, String> {
        let c = &self.wasm[contract];
        let ctx = Ctx {
            current: contract.into(),
            input: args.to_vec(),
            block_index: self.block,
            timestamp: self.now,
            balance: self.balance(contract),
            prepaid_gas: GAS,
            is_view: true,
            storage_usage: c.usage,
            ..Default::default()
        };
        // a view cannot write, so running it on the shared storage is safe
        match c.code.view(&c.storage, ctx, method)? {
            Ret::Value(v) => Ok(v),
            _ => Ok(vec![]),
        }
    }
    pub fn view(&self, contract: &str, method: &str, args: Value) -> Result<Value, String> {
        let r = self.view_raw(contract, method, args.to_string().as_bytes())?;
        if r.is_empty() {
            return Ok(Value::Null);
        }
        serde_json::from_slice(&r).map_err(|e| format!("bad json from {}: {}", method, e))
    }

    /// Sends a transaction and executes its first receipt at once. Later receipts stay pending.
    pub fn tx(&mut self, signer: &str, receiver: &str, method: &str, args: Value, deposit: u128) -> Executed {
        self.tx_raw(signer, receiver, method, args.to_string().into_bytes(), deposit)
    }
    pub fn tx_raw(&mut self, signer: &str, receiver: &str, method: &str, args: Vec<u8>, deposit: u128) -> Executed {
        let bal = self.near.entry(signer.into()).or_insert(0);
        assert!(*bal >= deposit, "test account {} out of NEAR", signer);
        *bal -= deposit;
        let id = self.fresh();
        let out = self.fresh();
        self.root_out.insert(out, id);
        let r = Receipt {
            id,
            predecessor: signer.into(),
            receiver: receiver.into(),
            signer: signer.into(),
            actions: vec![Action::Call { method: method.into(), args, deposit, gas: self.prepaid_gas }],
            inputs: vec![],
            outputs: vec![out],
            root: id,
        };
        self.block += 1;
        self.exec(r, None)
    }
    /// A contract's own continuation: `pred` calls `method` after promises that ended in `results`.
    pub fn callback(&mut self, pred: &str, receiver: &str, method: &str, args: Value, deposit: u128, results: Vec<PromiseRes>) -> Executed {
        *self.near.entry(pred.into()).or_insert(0) -= deposit;
        let id = self.fresh();
        let mut inputs = vec![];
        for r in results {
            let d = self.fresh();
            self.data.insert(d, r);
            inputs.push(d);
        }
        let r = Receipt {
            id,
            predecessor: pred.into(),
            receiver: receiver.into(),
            signer: "mallory.near".into(),
            actions: vec![Action::Call { method: method.into(), args: args.to_string().into_bytes(), deposit, gas: self.prepaid_gas }],
            inputs,
            outputs: vec![],
            root: id,
        };
        self.block += 1;
        self.exec(r, None)
    }
    /// tx, then everything it caused, in order.
    pub fn tx_drain(&mut self, signer: &str, receiver: &str, method: &str, args: Value, deposit: u128) -> Vec<Executed> {
        let mut v = vec![self.tx(signer, receiver, method, args, deposit)];
        v.extend(self.drain());
        v
    }

    fn fresh(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
    pub fn ready(&self) -> Vec<usize> {
        (0..self.pending.len())
            .filter(|i| self.pending[*i].inputs.iter().all(|d| self.data.contains_key(d)))
            .collect()
    }
    /// Executes the k-th ready receipt (modulo their number).
    pub fn step(&mut self, k: usize, fail: Option<&str>) -> Option<Executed> {
        let r = self.ready();
        if r.is_empty() {
            return None;
        }
        let i = r[k % r.len()];
        let rec = self.pending.remove(i);
        self.block += 1;
        Some(self.exec(rec, fail))
    }
    pub fn drain(&mut self) -> Vec<Executed> {
        let mut v = vec![];
        while let Some(e) = self.step(0, None) {
            v.push(e);
            assert!(v.len() < 10_000, "receipt storm");
        }
        assert!(self.pending.is_empty(), "blocked receipts");
        v
    }

    /// executes what only moves NEAR
    pub fn drain_transfers(&mut self) {
        while let Some(i) = self.pending.iter().position(|r| r.inputs.is_empty() && r.actions.iter().all(|a| matches!(a, Action::Transfer(_)))) {
            let id = self.pending[i].id;
            self.step_id(id);
        }
    }

    /// What the receipt `id` is waiting for, in the order in which it reads the answers.
    pub fn feeders(&self, id: u64) -> Vec<Receipt> {
        let r = self.pending.iter().find(|r| r.id == id).expect("pending receipt");
        r.inputs.iter().filter_map(|d| self.pending.iter().find(|q| q.outputs.contains(d)).cloned()).collect()
    }
    /// Peers answer `results` to what the receipt `id` is waiting for, without being modelled.
    pub fn feed(&mut self, id: u64, results: Vec<PromiseRes>) {
        for (q, r) in self.feeders(id).into_iter().zip(results) {
            self.pending.retain(|x| x.id != q.id);
            for o in q.outputs {
                self.publish(o, r.clone());
            }
        }
    }
    pub fn step_id(&mut self, id: u64) -> Executed {
        let i = self.pending.iter().position(|r| r.id == id).expect("pending receipt");
        let rec = self.pending.remove(i);
        self.block += 1;
        self.exec(rec, None)
    }

    fn publish(&mut self, id: u64, res: PromiseRes) {
        if let Some(root) = self.root_out.remove(&id) {
            self.final_results.insert(root, res);
        } else {
            self.data.insert(id, res);
        }
    }

    fn exec(&mut self, r: Receipt, fail: Option<&str>) -> Executed {
        let inputs: Vec<PromiseRes> = r.inputs.iter().map(|d| self.data.remove(d).unwrap_or(PromiseRes::Failed)).collect();
        let mut ex = Executed {
            id: r.id,
            root: r.root,
            predecessor: r.predecessor.clone(),
            signer: r.signer.clone(),
            receiver: r.receiver.clone(),
            method: String::new(),
            args: vec![],
            deposit: 0,
            result: Ok(vec![]),
            inputs: inputs.clone(),
            delegated: false,
            logs: vec![],
            spawned: vec![],
            injected: fail.is_some(),
        };
        let total: u128 = r.actions.iter().map(action_cost).sum();
        for a in &r.actions {
            if let Action::Call { method, args, deposit, .. } = a {
                ex.method = method.clone();
                ex.args = args.clone();
                ex.deposit = *deposit;
            }
        }
        // snapshot of the receiver for rollback
        let saved_w = if r.actions.len() > 1 { self.wasm.get(&r.receiver).cloned() } else { None };
        let saved_m = self.models.get(&r.receiver).cloned();
        let saved_bal = self.balance(&r.receiver);
        let mut created: Vec<(Vec<NewReceipt>, Ret)> = vec![];
        let mut error: Option<String> = fail.map(|s| s.to_string());
        if error.is_none() {
            for a in &r.actions {
                let e = match a {
                    Action::Transfer(d) => {
                        *self.near.entry(r.receiver.clone()).or_insert(0) += d;
                        Ok(None)
                    }
                    Action::Call { method, args, deposit, gas } => {
                        *self.near.entry(r.receiver.clone()).or_insert(0) += deposit;
                        self.call(&r, method, args, *deposit, *gas, &inputs).map(|o| {
                            ex.logs.extend(o.logs.iter().cloned());
                            Some((o.receipts, o.ret))
                        })
                    }
                    Action::Deploy(code) => self.redeploy(&r.receiver, code).map(|_| None),
                    Action::Other(s) => Err(format!("unsupported action {}", s)),
                };
                match e {
                    Ok(Some(x)) => created.push(x),
                    Ok(None) => {}
                    Err(m) => {
                        error = Some(m);
                        break;
                    }
                }
            }
        }
        if let Some(m) = error {
            if let Some(w) = saved_w {
                self.wasm.insert(r.receiver.clone(), w);
            }
            if let Some(w) = saved_m {
                self.models.insert(r.receiver.clone(), w);
            }
            self.near.insert(r.receiver.clone(), saved_bal);
            *self.near.entry(r.predecessor.clone()).or_insert(0) += total;
            ex.result = Err(m);
            for o in r.outputs {
                self.publish(o, PromiseRes::Failed);
            }
            return ex;
        }
        drop(saved_w);
        drop(saved_m);
        let n = created.len();
        let mut outputs = r.outputs;
        for (i, (recs, ret)) in created.into_iter().enumerate() {
            let base = self.pending.len();
            for nr in recs {
                let id = self.fresh();
                ex.spawned.push(id);
                let mut rec = Receipt {
                    id,
                    predecessor: r.receiver.clone(),
                    receiver: nr.receiver,
                    signer: r.signer.clone(),
                    actions: nr.actions,
                    inputs: vec![],
                    outputs: vec![],
                    root: r.root,
                };
                for d in nr.deps {
                    let did = self.fresh();
                    self.pending[base + d].outputs.push(did);
                    rec.inputs.push(did);
                }
                self.pending.push(rec);
            }
            if i + 1 == n {
                match ret {
                    Ret::Value(v) => ex.result = Ok(v),
                    Ret::None => ex.result = Ok(vec![]),
                    Ret::Receipt(k) => {
                        ex.delegated = true;
                        self.pending[base + k].outputs.append(&mut outputs);
                    }
                }
            }
        }
        if !ex.delegated {
            let v = ex.result.clone().unwrap();
            for o in outputs {
                self.publish(o, PromiseRes::Ok(v.clone()));
            }
        }
        ex
    }

    fn redeploy(&mut self, id: &str, code: &[u8]) -> Result<(), String> {
        let w = Arc::make_mut(self.wasm.get_mut(id).ok_or("no contract")?);
        if w.code.wasm() != code {
            w.code = Code::try_compile(code)?;
        }
        Ok(())
    }

    fn call(&mut self, r: &Receipt, method: &str, args: &[u8], deposit: u128, gas: u64, inputs: &[PromiseRes]) -> Result<Outcome, String> {
        let balance = self.balance(&r.receiver);
        if self.wasm.contains_key(&r.receiver) {
            let w = Arc::make_mut(self.wasm.get_mut(&r.receiver).unwrap());
            let ctx = Ctx {
                current: r.receiver.clone(),
                signer: r.signer.clone(),
                predecessor: r.predecessor.clone(),
                input: args.to_vec(),
                block_index: self.block,
                timestamp: self.now,
                balance,
                attached: deposit,
                prepaid_gas: gas,
                is_view: false,
                results: inputs.to_vec(),
                storage_usage: w.usage,
            };
            let o = w.code.call(&mut w.storage, ctx, method)?;
            w.usage = o.storage_usage;
            self.near.insert(r.receiver.clone(), o.balance);
            Ok(o)
        } else if self.models.contains_key(&r.receiver) {
            let ctx = ModelCtx {
                me: r.receiver.clone(),
                predecessor: r.predecessor.clone(),
                signer: r.signer.clone(),
                deposit,
                balance,
                now: self.now,
                block: self.block,
                results: inputs.to_vec(),
            };
            let a: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
            let m = Arc::make_mut(self.models.get_mut(&r.receiver).unwrap());
            let o = m.call(&ctx, method, &a)?;
            let cost: u128 = o.receipts.iter().flat_map(|r| r.actions.iter()).map(action_cost).sum();
            if cost > balance {
                return Err("model out of balance".into());
            }
            self.near.insert(r.receiver.clone(), balance - cost);
            Ok(Outcome { ret: o.ret, receipts: o.receipts, logs: vec![], storage_usage: 0, balance: balance - cost })
        } else {
            Err(format!("CodeDoesNotExist {}", r.receiver))
        }
    }
}

pub fn action_cost(a: &Action) -> u128 {
    match a {
        Action::Call { deposit, .. } => *deposit,
        Action::Transfer(d) => *d,
        _ => 0,
    }
}
