//! A deterministic host for the contract's wasm artefact: implements the NEAR host interface
//! ("env" imports) over an in-memory key/value store, and records the promises a call creates.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::sync::Arc;
use wasmer::{Function, ImportObject, Instance, Memory, Module, Store, Exports};

// wasmer 1.0 links against the compiler's old stack probe, which newer toolchains no longer ship:
// rax holds the frame size; touch each page below rsp, preserve every register.
std::arch::global_asm!(
    ".globl __rust_probestack",
    "__rust_probestack:",
    "push rbp",
    "mov rbp, rsp",
    "mov r11, rax",
    "cmp r11, 0x1000",
    "jna 3f",
    "2:",
    "sub rsp, 0x1000",
    "test [rsp + 8], rsp",
    "sub r11, 0x1000",
    "cmp r11, 0x1000",
    "ja 2b",
    "3:",
    "sub rsp, r11",
    "test [rsp + 8], rsp",
    "add rsp, rax",
    "leave",
    "ret",
);

pub type Storage = HashMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
pub enum PromiseRes {
    Ok(Vec<u8>),
    Failed,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Action {
    Call { method: String, args: Vec<u8>, deposit: u128, gas: u64 },
    Transfer(u128),
    Deploy(Vec<u8>),
    Other(&'static str),
}

/// A receipt as created by one contract call; `deps` index receipts of the same call.
#[derive(Clone, Debug)]
pub struct NewReceipt {
    pub receiver: String,
    pub actions: Vec<Action>,
    pub deps: Vec<usize>,
}

#[derive(Clone, Debug)]
pub enum Ret {
    None,
    Value(Vec<u8>),
    /// index into the receipts created by this call
    Receipt(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Ctx {
    pub current: String,
    pub signer: String,
    pub predecessor: String,
    pub input: Vec<u8>,
    pub block_index: u64,
    pub timestamp: u64,
    /// balance including the attached deposit
    pub balance: u128,
    pub attached: u128,
    pub prepaid_gas: u64,
    pub is_view: bool,
    pub results: Vec<PromiseRes>,
    pub storage_usage: u64,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ret: Ret,
    pub receipts: Vec<NewReceipt>,
    pub logs: Vec<String>,
    pub storage_usage: u64,
    pub balance: u128,
}

enum Prom {
    Receipt(usize),
    And(Vec<usize>),
}

struct Host {
    ctx: Ctx,
    mem: Option<Memory>,
    storage: *mut Storage,
    undo: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    regs: Vec<(u64, Vec<u8>)>,
    receipts: Vec<NewReceipt>,
    promises: Vec<Prom>,
    ret: Option<Ret>,
    logs: Vec<String>,
    used_gas: u64,
    panic_msg: Option<String>,
    /// what a view has looked at: storage, and whether clock, height, balance or usage
    reads: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    env_read: bool,
}

impl Default for Host {
    fn default() -> Host {
        Host {
            ctx: Ctx::default(),
            mem: None,
            storage: std::ptr::null_mut(),
            undo: vec![],
            regs: vec![],
            receipts: vec![],
            promises: vec![],
            ret: None,
            logs: vec![],
            used_gas: 0,
            panic_msg: None,
            reads: vec![],
            env_read: false,
        }
    }
}

#[derive(Debug)]
pub struct HostErr(pub String);
impl fmt::Display for HostErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for HostErr {}
type R<T> = Result<T, HostErr>;

thread_local! {
    static HOST: RefCell<Host> = RefCell::new(Host::default());
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(HostErr(s.into()))
}

impl Host {
    /// The storage of the running contract; exclusive for calls, never written in views.
    fn st(&mut self) -> &mut Storage {
        unsafe { &mut *self.storage }
    }
    fn bytes(&self, len: u64, ptr: u64) -> R<Vec<u8>> {
        if len == u64::MAX {
            return self.reg(ptr).map(|v| v.to_vec());
        }
        let m = self.mem.as_ref().unwrap();
        let size = m.data_size();
        if ptr.checked_add(len).map_or(true, |e| e > size) {
            return err("memory access violation");
        }
        unsafe { Ok(std::slice::from_raw_parts(m.data_ptr().add(ptr as usize), len as usize).to_vec()) }
    }
    fn put(&self, ptr: u64, data: &[u8]) -> R<()> {
        let m = self.mem.as_ref().unwrap();
        if ptr.checked_add(data.len() as u64).map_or(true, |e| e > m.data_size()) {
            return err("memory access violation");
        }
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), m.data_ptr().add(ptr as usize), data.len());
        }
        Ok(())
    }
    fn string(&self, len: u64, ptr: u64) -> R<String> {
        String::from_utf8(self.bytes(len, ptr)?).map_err(|_| HostErr("bad utf8".into()))
    }
    fn reg(&self, id: u64) -> R<&[u8]> {
        self.regs
            .iter()
            .find(|(i, _)| *i == id)
            .map(|(_, v)| &v[..])
            .ok_or_else(|| HostErr("invalid register".into()))
    }
    fn set_reg(&mut self, id: u64, v: Vec<u8>) {
        if let Some(s) = self.regs.iter_mut().find(|(i, _)| *i == id) {
            s.1 = v;
        } else {
            self.regs.push((id, v));
        }
    }
    fn u128_at(&self, ptr: u64) -> R<u128> {
        let b = self.bytes(16, ptr)?;
        let mut a = [0u8; 16];
        a.copy_from_slice(&b);
        Ok(u128::from_le_bytes(a))
    }
    fn no_view(&self, what: &str) -> R<()> {
        if self.ctx.is_view {
            return err(format!("ProhibitedInView {}", what));
        }
        Ok(())
    }
    fn batch(&mut self, receiver: String, deps: Vec<usize>) -> R<u64> {
        if !valid_account(&receiver) {
            return err(format!("InvalidAccountId {}", receiver));
        }
        self.receipts.push(NewReceipt { receiver, actions: vec![], deps });
        self.promises.push(Prom::Receipt(self.receipts.len() - 1));
        Ok(self.promises.len() as u64 - 1)
    }
    fn dep_of(&self, p: u64) -> R<Vec<usize>> {
        match self.promises.get(p as usize) {
            Some(Prom::Receipt(i)) => Ok(vec![*i]),
            Some(Prom::And(v)) => Ok(v.clone()),
            None => err("InvalidPromiseIndex"),
        }
    }
    fn act(&mut self, p: u64, a: Action) -> R<()> {
        self.no_view("promise")?;
        let i = match self.promises.get(p as usize) {
            Some(Prom::Receipt(i)) => *i,
            _ => return err("InvalidPromiseIndex"),
        };
        let cost = match &a {
            Action::Call { deposit, .. } => *deposit,
            Action::Transfer(d) => *d,
            _ => 0,
        };
        if cost > self.ctx.balance {
            return err("BalanceExceeded");
        }
        self.ctx.balance -= cost;
        self.receipts[i].actions.push(a);
        Ok(())
    }
}

pub fn valid_account(a: &str) -> bool {
    if a.len() < 2 || a.len() > 64 {
        return false;
    }
    let mut last_sep = true;
    for c in a.bytes() {
        let sep = match c {
            b'a'..=b'z' | b'0'..=b'9' => false,
            b'-' | b'_' | b'.' => true,
            _ => return false,
        };
        if sep && last_sep {
            return false;
        }
        last_sep = sep;
    }
    !last_sep
}

fn h<T>(f: impl FnOnce(&mut Host) -> R<T>) -> R<T> {
    HOST.with(|x| f(&mut x.borrow_mut()))
}

fn imports(store: &Store) -> ImportObject {
    let mut e = Exports::new();
    macro_rules! f {
        ($name:ident, |$h:ident $(, $a:ident)*| -> $ret:ty $body:block) => {{
            fn $name($($a: u64),*) -> Result<$ret, HostErr> {
                h(|$h: &mut Host| -> R<$ret> { $body })
            }
            e.insert(stringify!($name), Function::new_native(store, $name));
        }};
    }
    f!(read_register, |h, id, ptr| -> () { let d = h.reg(id)?.to_vec(); h.put(ptr, &d) });
    f!(register_len, |h, id| -> u64 { Ok(h.reg(id).map(|r| r.len() as u64).unwrap_or(u64::MAX)) });
    f!(current_account_id, |h, r| -> () { let v = h.ctx.current.clone().into_bytes(); h.set_reg(r, v); Ok(()) });
    f!(signer_account_id, |h, r| -> () { h.no_view("signer")?; let v = h.ctx.signer.clone().into_bytes(); h.set_reg(r, v); Ok(()) });
    f!(signer_account_pk, |h, r| -> () { h.no_view("pk")?; h.set_reg(r, vec![0u8; 33]); Ok(()) });
    f!(predecessor_account_id, |h, r| -> () { h.no_view("predecessor")?; let v = h.ctx.predecessor.clone().into_bytes(); h.set_reg(r, v); Ok(()) });
    f!(input, |h, r| -> () { let v = h.ctx.input.clone(); h.set_reg(r, v); Ok(()) });
    f!(block_index, |h| -> u64 { h.env_read = true; Ok(h.ctx.block_index) });
    f!(block_timestamp, |h| -> u64 { h.env_read = true; Ok(h.ctx.timestamp) });
    f!(epoch_height, |_h| -> u64 { Ok(1) });
    f!(storage_usage, |h| -> u64 { h.env_read = true; Ok(h.ctx.storage_usage) });
    f!(account_balance, |h, p| -> () { h.env_read = true; let b = h.ctx.balance.to_le_bytes(); h.put(p, &b) });
    f!(account_locked_balance, |h, p| -> () { h.put(p, &0u128.to_le_bytes()) });
    f!(attached_deposit, |h, p| -> () { h.no_view("attached_deposit")?; let b = h.ctx.attached.to_le_bytes(); h.put(p, &b) });
    f!(prepaid_gas, |h| -> u64 { h.no_view("prepaid_gas")?; Ok(h.ctx.prepaid_gas) });
    f!(used_gas, |h| -> u64 { h.no_view("used_gas")?; h.used_gas += 1_000_000_000; Ok(h.used_gas) });
    f!(random_seed, |h, r| -> () { h.set_reg(r, vec![7u8; 32]); Ok(()) });
    f!(sha256, |h, l, p, r| -> () { use sha2::Digest; let b = h.bytes(l, p)?; let d = sha2::Sha256::digest(&b).to_vec(); h.set_reg(r, d); Ok(()) });
    f!(keccak256, |h, l, p, r| -> () { use sha3::Digest; let b = h.bytes(l, p)?; let d = sha3::Keccak256::digest(&b).to_vec(); h.set_reg(r, d); Ok(()) });
    f!(keccak512, |h, l, p, r| -> () { use sha3::Digest; let b = h.bytes(l, p)?; let d = sha3::Keccak512::digest(&b).to_vec(); h.set_reg(r, d); Ok(()) });
    f!(value_return, |h, l, p| -> () { let v = h.bytes(l, p)?; h.ret = Some(Ret::Value(v)); Ok(()) });
    f!(panic, |h| -> () { h.panic_msg = Some("explicit guest panic".into()); err("panic") });
    f!(panic_utf8, |h, l, p| -> () { let m = h.string(l, p)?; h.panic_msg = Some(m); err("panic") });
    f!(log_utf8, |h, l, p| -> () { let m = h.string(l, p)?; h.logs.push(m); Ok(()) });
    f!(log_utf16, |_h, _l, _p| -> () { Ok(()) });
    f!(promise_create, |h, al, ap, ml, mp, gl, gp, dp, gas| -> u64 {
        h.no_view("promise_create")?;
        let a = h.string(al, ap)?;
        let method = h.string(ml, mp)?;
        let args = h.bytes(gl, gp)?;
        let deposit = h.u128_at(dp)?;
        let p = h.batch(a, vec![])?;
        h.act(p, Action::Call { method, args, deposit, gas })?;
        Ok(p)
    });
    f!(promise_then, |h, pi, al, ap, ml, mp, gl, gp, dp, gas| -> u64 {
        h.no_view("promise_then")?;
        let a = h.string(al, ap)?;
        let method = h.string(ml, mp)?;
        let args = h.bytes(gl, gp)?;
        let deposit = h.u128_at(dp)?;
        let deps = h.dep_of(pi)?;
        let p = h.batch(a, deps)?;
        h.act(p, Action::Call { method, args, deposit, gas })?;
        Ok(p)
    });
    f!(promise_and, |h, ptr, n| -> u64 {
        h.no_view("promise_and")?;
        let b = h.bytes(n * 8, ptr)?;
        let mut v = vec![];
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a.copy_from_slice(c);
            v.extend(h.dep_of(u64::from_le_bytes(a))?);
        }
        h.promises.push(Prom::And(v));
        Ok(h.promises.len() as u64 - 1)
    });
    f!(promise_batch_create, |h, al, ap| -> u64 {
        h.no_view("promise_batch_create")?;
        let a = h.string(al, ap)?;
        h.batch(a, vec![])
    });
    f!(promise_batch_then, |h, pi, al, ap| -> u64 {
        h.no_view("promise_batch_then")?;
        let a = h.string(al, ap)?;
        let deps = h.dep_of(pi)?;
        h.batch(a, deps)
    });
    f!(promise_batch_action_create_account, |h, p| -> () { h.act(p, Action::Other("create_account")) });
    f!(promise_batch_action_deploy_contract, |h, p, l, cp| -> () { let c = h.bytes(l, cp)?; h.act(p, Action::Deploy(c)) });
    f!(promise_batch_action_function_call, |h, p, ml, mp, gl, gp, dp, gas| -> () {
        let method = h.string(ml, mp)?;
        let args = h.bytes(gl, gp)?;
        // a null pointer stands for "no deposit" in the upgrade entry point
        let deposit = if dp == 0 { 0 } else { h.u128_at(dp)? };
        h.act(p, Action::Call { method, args, deposit, gas })
    });
    f!(promise_batch_action_transfer, |h, p, ap| -> () { let a = h.u128_at(ap)?; h.act(p, Action::Transfer(a)) });
    f!(promise_batch_action_stake, |h, p, _a, _b, _c| -> () { h.act(p, Action::Other("stake")) });
    f!(promise_batch_action_add_key_with_full_access, |h, p, _a, _b, _c| -> () { h.act(p, Action::Other("add_full_key")) });
    f!(promise_batch_action_add_key_with_function_call, |h, p, _a, _b, _c, _d, _e, _f, _g, _i| -> () { h.act(p, Action::Other("add_key")) });
    f!(promise_batch_action_delete_key, |h, p, _a, _b| -> () { h.act(p, Action::Other("delete_key")) });
    f!(promise_batch_action_delete_account, |h, p, _a, _b| -> () { h.act(p, Action::Other("delete_account")) });
    f!(promise_results_count, |h| -> u64 { h.no_view("promise_results_count")?; Ok(h.ctx.results.len() as u64) });
    f!(promise_result, |h, i, r| -> u64 {
        h.no_view("promise_result")?;
        match h.ctx.results.get(i as usize).cloned() {
            None => err("InvalidPromiseResultIndex"),
            Some(PromiseRes::Failed) => Ok(2),
            Some(PromiseRes::Ok(v)) => { h.set_reg(r, v); Ok(1) }
        }
    });
    f!(promise_return, |h, p| -> () {
        h.no_view("promise_return")?;
        match h.promises.get(p as usize) {
            Some(Prom::Receipt(i)) => { let i = *i; h.ret = Some(Ret::Receipt(i)); Ok(()) }
            _ => err("CannotReturnJointPromise"),
        }
    });
    f!(storage_write, |h, kl, kp, vl, vp, r| -> u64 {
        h.no_view("storage_write")?;
        let k = h.bytes(kl, kp)?;
        let v = h.bytes(vl, vp)?;
        let vlen = v.len() as u64;
        let old = h.st().insert(k.clone(), v);
        h.undo.push((k.clone(), old.clone()));
        match old {
            Some(o) => { h.ctx.storage_usage = h.ctx.storage_usage + vlen - o.len() as u64; h.set_reg(r, o); Ok(1) }
            None => { h.ctx.storage_usage += k.len() as u64 + vlen + 40; Ok(0) }
        }
    });
    f!(storage_read, |h, kl, kp, r| -> u64 {
        let k = h.bytes(kl, kp)?;
        let v = h.st().get(&k).cloned();
        if h.ctx.is_view { h.reads.push((k, v.clone())); }
        match v {
            Some(v) => { h.set_reg(r, v); Ok(1) }
            None => Ok(0),
        }
    });
    f!(storage_remove, |h, kl, kp, r| -> u64 {
        h.no_view("storage_remove")?;
        let k = h.bytes(kl, kp)?;
        match h.st().remove(&k) {
            Some(v) => {
                h.ctx.storage_usage -= k.len() as u64 + v.len() as u64 + 40;
                h.undo.push((k, Some(v.clone())));
                h.set_reg(r, v);
                Ok(1)
            }
            None => Ok(0),
        }
    });
    f!(storage_has_key, |h, kl, kp| -> u64 { {
        let k = h.bytes(kl, kp)?;
        let has = h.st().contains_key(&k) as u64;
        if h.ctx.is_view { let v = h.st().get(&k).cloned(); h.reads.push((k, v)); }
        Ok(has)
    } });
    f!(validator_stake, |h, _a, _b, p| -> () { h.put(p, &0u128.to_le_bytes()) });
    f!(validator_total_stake, |h, p| -> () { h.put(p, &0u128.to_le_bytes()) });
    let mut io = ImportObject::new();
    io.register("env", e);
    io
}

/// A compiled contract.
#[derive(Clone)]
pub struct Code(Arc<CodeInner>);
struct CodeInner {
    store: Store,
    module: Module,
    pub exports: Vec<String>,
    pub wasm: Vec<u8>,
}

thread_local! {
    pub static CALLS: std::cell::Cell<u64> = std::cell::Cell::new(0);
    static VIEWS: RefCell<HashMap<(usize, String, Vec<u8>), Cached>> = RefCell::new(HashMap::new());
    static LAST_READS: RefCell<(Vec<(Vec<u8>, Option<Vec<u8>>)>, bool)> = RefCell::new((vec![], false));
    static KEPT: RefCell<Vec<Kept>> = RefCell::new(vec![]);
    static IMPORTS: RefCell<Vec<(usize, ImportObject)>> = RefCell::new(vec![]);
}

struct Cached {
    env: (u64, u64, u128, u64, String),
    env_read: bool,
    reads: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    ret: Result<Ret, String>,
}

/// An instance kept for further calls. Before each, its data is put back to what it was right after
/// instantiation; the heap starts in newly grown, zeroed pages, so that every call finds fresh memory.
struct Kept {
    code: usize,
    uses: u32,
    inst: Instance,
    mem: Memory,
    /// first non-zero byte, and everything from there on
    start: usize,
    image: Vec<u8>,
}
impl Kept {
    fn new(code: usize, inst: Instance) -> Kept {
        let mem = inst.exports.get_memory("memory").expect("memory").clone();
        let all = unsafe { std::slice::from_raw_parts(mem.data_ptr(), mem.data_size() as usize) };
        let start = all.iter().position(|b| *b != 0).unwrap_or(all.len());
        let image = all[start..].to_vec();
        Kept { code, uses: 0, inst, mem, start, image }
    }
    fn reset(&mut self) {
        unsafe {
            std::ptr::copy_nonoverlapping(self.image.as_ptr(), self.mem.data_ptr().add(self.start), self.image.len());
        }
    }
}

impl Code {
    pub fn compile(wasm: &[u8]) -> Code {
        Code::try_compile(wasm).expect("wasm does not compile")
    }
    /// the compiled code, kept for the next time
    pub fn try_compile(wasm: &[u8]) -> Result<Code, String> {
        thread_local! {
            static DONE: RefCell<Vec<Result<Code, (Vec<u8>, String)>>> = RefCell::new(vec![]);
        }
        DONE.with(|d| {
            for c in d.borrow().iter() {
                match c {
                    Ok(c) if c.wasm() == wasm => return Ok(c.clone()),
                    Err((w, m)) if &w[..] == wasm => return Err(m.clone()),
                    _ => {}
                }
            }
            let r = Code::really_compile(wasm);
            d.borrow_mut().push(r.clone().map_err(|m| (wasm.to_vec(), m)));
            r
        })
    }
    fn really_compile(wasm: &[u8]) -> Result<Code, String> {
        let store = Store::new(&wasmer::JIT::new(wasmer::Singlepass::default()).engine());
        let module = Module::new(&store, wasm).map_err(|e| format!("CompilationError: {}", e))?;
        let exports = module.exports().filter_map(|e| match e.ty() {
            wasmer::ExternType::Function(_) => Some(e.name().to_string()),
            _ => None,
        }).collect();
        Ok(Code(Arc::new(CodeInner { store, module, exports, wasm: wasm.to_vec() })))
    }
    pub fn exports(&self) -> &[String] {
        &self.0.exports
    }
    pub fn wasm(&self) -> &[u8] {
        &self.0.wasm
    }

    /// Runs one method. On error the storage is left exactly as it was.
    pub fn call(&self, storage: &mut Storage, ctx: Ctx, method: &str) -> Result<Outcome, String> {
        self.run(storage as *mut Storage, ctx, method)
    }

    /// Runs one method read-only (every host function that writes refuses).
    /// The answer of an earlier identical call is reused if everything it looked at is still the same.
    pub fn view(&self, storage: &Storage, mut ctx: Ctx, method: &str) -> Result<Ret, String> {
        ctx.is_view = true;
        let me = Arc::as_ptr(&self.0) as usize;
        let key = (me, method.to_string(), ctx.input.clone());
        let env = (ctx.block_index, ctx.timestamp, ctx.balance, ctx.storage_usage, ctx.current.clone());
        let hit = VIEWS.with(|v| {
            let v = v.borrow();
            let c = v.get(&key)?;
            if c.env.4 != env.4 || (c.env_read && c.env != env) {
                return None;
            }
            if c.reads.iter().all(|(k, x)| storage.get(k) == x.as_ref()) {
                return Some(c.ret.clone());
            }
            None
        });
        if let Some(r) = hit {
            return r;
        }
        let r = self.run(storage as *const Storage as *mut Storage, ctx, method).map(|o| o.ret);
        let (mut reads, env_read) = LAST_READS.with(|l| std::mem::take(&mut *l.borrow_mut()));
        reads.sort();
        reads.dedup();
        VIEWS.with(|v| {
            let mut v = v.borrow_mut();
            if v.len() > 4000 {
                v.clear();
            }
            v.insert(key, Cached { env, env_read, reads, ret: r.clone() });
        });
        r
    }

    fn run(&self, storage: *mut Storage, ctx: Ctx, method: &str) -> Result<Outcome, String> {
        if !self.0.exports.iter().any(|e| e == method) {
            return Err(format!("MethodNotFound {}", method));
        }
        CALLS.with(|c| c.set(c.get() + 1));
        let key = Arc::as_ptr(&self.0) as usize;
        let kept = KEPT.with(|v| {
            let mut v = v.borrow_mut();
            v.iter().position(|k| k.code == key).map(|i| v.swap_remove(i))
        });
        let kept = match kept {
            Some(mut k) => {
                k.reset();
                k
            }
            None => {
                let io = IMPORTS.with(|i| {
                    let mut i = i.borrow_mut();
                    if let Some((_, io)) = i.iter().find(|(k, _)| *k == key) {
                        io.clone()
                    } else {
                        let io = imports(&self.0.store);
                        i.push((key, io.clone()));
                        io
                    }
                });
                Kept::new(key, Instance::new(&self.0.module, &io).expect("instantiate"))
            }
        };
        let (inst, mem) = (&kept.inst, kept.mem.clone());
        HOST.with(|x| {
            let mut x = x.borrow_mut();
            *x = Host::default();
            x.ctx = ctx;
            x.mem = Some(mem);
            x.storage = storage;
        });
        let r = inst.exports.get_function(method).expect("export").call(&[]);
        let mut host = HOST.with(|x| std::mem::take(&mut *x.borrow_mut()));
        if host.ctx.is_view {
            LAST_READS.with(|l| *l.borrow_mut() = (std::mem::take(&mut host.reads), host.env_read));
        }
        match r {
            Ok(_) => {
                let mut kept = kept;
                kept.uses += 1;
                if kept.uses < 300 {
                    KEPT.with(|v| v.borrow_mut().push(kept));
                }
                Ok(Outcome {
                    ret: host.ret.take().unwrap_or(Ret::None),
                    receipts: std::mem::take(&mut host.receipts),
                    logs: std::mem::take(&mut host.logs),
                    storage_usage: host.ctx.storage_usage,
                    balance: host.ctx.balance,
                })
            }
            Err(e) => {
                let undo: Vec<_> = host.undo.drain(..).rev().collect();
                for (k, v) in undo {
                    match v {
                        Some(v) => { host.st().insert(k, v); }
                        None => { host.st().remove(&k); }
                    }
                }
                Err(host.panic_msg.take().unwrap_or_else(|| e.message()))
            }
        }
    }
}
