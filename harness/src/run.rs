//! Driving a property: generation, shrinking, statistics, evidence, replay files.
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(sig: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { return $crate::run::viol($sig, format!($($a)*)); }
    };
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: BTreeSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub sample_kinds: BTreeSet<String>,
    pub known: BTreeMap<String, String>,
    hash: u64,
    json: Option<Value>,
    pub frozen: bool,
}
impl Stats {
    pub fn label(&mut self, s: &str) {
        if !self.frozen {
            *self.labels.entry(s.to_string()).or_insert(0) += 1;
        }
    }
    pub fn add(&mut self, s: &str, n: u64) {
        if !self.frozen {
            *self.labels.entry(s.to_string()).or_insert(0) += n;
        }
    }
    /// the present case satisfies the property's non-triviality rule
    pub fn hit(&mut self) {
        if !self.frozen {
            self.nontrivial.insert(self.hash);
            if self.samples.len() < 2 {
                if let Some(j) = self.json.take() {
                    self.samples.push(j);
                }
            }
        }
    }
}

pub struct Known {
    pub entries: Vec<(String, String, String)>,
}
impl Known {
    pub fn load(path: &str) -> Known {
        let mut k = Known { entries: vec![] };
        if let Ok(s) = std::fs::read_to_string(path) {
            let v: Value = serde_json::from_str(&s).expect("known-findings file");
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                k.entries.push((f["property"].as_str().unwrap().into(), f["signature"].as_str().unwrap().into(), f["what"].as_str().unwrap_or("").into()));
            }
        }
        k
    }
    pub fn find(&self, p: &str, sig: &str) -> Option<&str> {
        self.entries.iter().find(|(a, b, _)| a == p && b == sig).map(|(_, _, w)| &w[..])
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h.wrapping_mul(0x9E3779B97F4A7C15)
}

pub struct Cfg {
    pub id: String,
    pub seed: u64,
    pub worker: u64,
    pub cases: u32,
    pub shrink: u32,
    pub known: Known,
}

pub struct Def {
    pub id: &'static str,
    pub rule: &'static str,
    /// total cases of the quick and of the thorough run
    pub quick: u32,
    pub thorough: u32,
    pub exec: Box<dyn Fn(&Cfg) -> Value>,
    pub replay: Box<dyn Fn(&str) -> Res>,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

fn guarded<C>(f: &dyn Fn(&C, &mut Stats) -> Res, c: &C, st: &mut Stats) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(c, st))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            viol("unexpected-response", m)
        }
    }
}

/// Builds a property from its strategy and its check.
pub fn def<C, S>(id: &'static str, rule: &'static str, quick: u32, thorough: u32, strat: S, check: fn(&C, &mut Stats) -> Res) -> Def
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
    S: Fn() -> BoxedStrategy<C> + 'static,
{
    Def {
        id,
        rule,
        quick,
        thorough,
        exec: Box::new(move |cfg: &Cfg| {
            let st = RefCell::new(Stats::default());
            let config = Config {
                cases: cfg.cases,
                max_shrink_iters: cfg.shrink,
                max_shrink_time: 120_000,
                failure_persistence: None,
                rng_algorithm: RngAlgorithm::ChaCha,
                rng_seed: RngSeed::Fixed(fnv(format!("{}/{}/{}", cfg.seed, cfg.id, cfg.worker).as_bytes())),
                verbose: 0,
                ..Config::default()
            };
            let mut runner = TestRunner::new(config);
            let first: RefCell<Option<Viol>> = RefCell::new(None);
            let last: RefCell<Option<Viol>> = RefCell::new(None);
            let r = runner.run(&strat(), |c: C| {
                let mut s = st.borrow_mut();
                let s = &mut *s;
                if !s.frozen {
                    s.evaluations += 1;
                    let j = serde_json::to_vec(&c).unwrap();
                    s.hash = fnv(&j);
                    s.json = if s.samples.len() < 2 { serde_json::from_slice(&j).ok() } else { None };
                }
                match guarded(&check, &c, s) {
                    Ok(()) => Ok(()),
                    Err(v) => {
                        if let Some(w) = cfg.known.find(&cfg.id, &v.sig) {
                            s.known.insert(v.sig.clone(), w.to_string());
                            if !s.frozen {
                                *s.labels.entry(format!("known finding {}", v.sig)).or_insert(0) += 1;
                            }
                            return Ok(());
                        }
                        let mut f = first.borrow_mut();
                        if f.is_none() {
                            *f = Some(v.clone());
                            s.frozen = true;
                        } else if f.as_ref().unwrap().sig != v.sig {
                            // stay on the failure that was found
                            return Ok(());
                        }
                        *last.borrow_mut() = Some(v.clone());
                        Err(TestCaseError::fail(v.msg))
                    }
                }
            });
            let st = st.into_inner();
            let mut out = json!({
                "evaluations": st.evaluations,
                "nontrivial": st.nontrivial.iter().collect::<Vec<_>>(),
                "labels": st.labels,
                "samples": st.samples,
                "known": st.known,
                "calls": crate::vm::CALLS.with(|c| c.get()),
            });
            match r {
                Ok(()) => {}
                Err(TestError::Fail(_, c)) => {
                    // the shrunk case, with the message it produces
                    let mut s = Stats { frozen: true, ..Default::default() };
                    let v = guarded(&check, &c, &mut s).err().unwrap_or_else(|| last.borrow().clone().unwrap());
                    out["violation"] = json!({"sig": v.sig, "msg": v.msg, "case": c});
                }
                Err(TestError::Abort(m)) => {
                    out["error"] = json!(format!("generation aborted: {}", m));
                }
            }
            out
        }),
        replay: Box::new(move |text: &str| {
            let v: Value = serde_json::from_str(text).expect("replay file");
            let c: C = serde_json::from_value(v["case"].clone()).expect("replay case");
            let mut s = Stats::default();
            guarded(&check, &c, &mut s)
        }),
    }
}

pub const WORKERS: u64 = 8;

/// Parent: starts the workers, merges what they did, writes evidence and replay.
pub fn parent(d: &Def, root: &str, wasm: &str, tier: &str, seed: u64, cases_override: Option<u32>) -> i32 {
    let t0 = std::time::Instant::now();
    let exe = std::env::current_exe().unwrap();
    let cases = cases_override.unwrap_or(if tier == "thorough" { d.thorough } else { d.quick });
    let limit = if tier == "thorough" { 6 * 3600 } else { 560 };
    let tmp = std::env::temp_dir().join(format!("refverif-{}-{}", d.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut kids = vec![];
    for w in 0..WORKERS {
        let out = tmp.join(format!("w{}.json", w));
        let k = std::process::Command::new(&exe)
            .args(["worker", d.id, "--root", root, "--wasm", wasm, "--seed", &seed.to_string(), "--worker", &w.to_string(), "--cases", &((cases as u64 + WORKERS - 1) / WORKERS).to_string(), "--out", out.to_str().unwrap()])
            .spawn()
            .expect("worker");
        kids.push((k, out));
    }
    let mut err: Option<String> = None;
    let mut outs = vec![];
    for (mut k, out) in kids {
        loop {
            match k.try_wait().unwrap() {
                Some(s) => {
                    if !s.success() {
                        err = Some(format!("worker ended with {}", s));
                    }
                    break;
                }
                None => {
                    if t0.elapsed().as_secs() > limit {
                        let _ = k.kill();
                        let _ = k.wait();
                        err = Some("worker ran out of time".into());
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(20));
                }
            }
        }
        if let Ok(s) = std::fs::read_to_string(&out) {
            if let Ok(v) = serde_json::from_str::<Value>(&s) {
                outs.push(v);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let mut evals = 0u64;
    let mut nt = BTreeSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut calls = 0;
    let mut viols: Vec<Value> = vec![];
    for o in &outs {
        evals += o["evaluations"].as_u64().unwrap_or(0);
        calls += o["calls"].as_u64().unwrap_or(0);
        for x in o["nontrivial"].as_array().unwrap() {
            nt.insert(x.as_u64().unwrap());
        }
        for (k, v) in o["labels"].as_object().unwrap() {
            *labels.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
        }
        if samples.len() < 3 {
            samples.extend(o["samples"].as_array().unwrap().iter().take(1).cloned());
        }
        for (k, v) in o["known"].as_object().unwrap() {
            known.insert(k.clone(), v.as_str().unwrap().into());
        }
        if o["violation"].is_object() {
            viols.push(o["violation"].clone());
        }
        if let Some(e) = o["error"].as_str() {
            err = Some(e.into());
        }
    }
    for (sig, w) in &known {
        println!("KNOWN-FINDING: property={} {} ({})", d.id, w, sig);
    }
    let mut paths = vec![];
    // the smallest reproduction of each kind
    viols.sort_by_key(|v| v["case"].to_string().len());
    let mut seen = BTreeSet::new();
    for v in &viols {
        let sig = v["sig"].as_str().unwrap().to_string();
        if !seen.insert(sig.clone()) {
            continue;
        }
        let p = format!("{}/evidence/replay-{}-{:08x}.json", root, d.id, fnv(v["case"].to_string().as_bytes()) as u32);
        std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": d.id, "signature": sig, "message": v["msg"], "case": v["case"]})).unwrap()).unwrap();
        println!("{}: {}", sig, v["msg"].as_str().unwrap());
        println!("VIOLATION property={} replay={}", d.id, p);
        paths.push(p);
    }
    let ev = json!({
        "property": d.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nt.len(),
            "rule": d.rule,
            "samples": samples,
            "labels": labels,
            "contract_calls": calls,
            "workers": WORKERS,
        },
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": paths.len(),
        "known_findings_seen": known,
        "assumptions": ["the contract runs as the wasm artefact built from the working tree, in a host that implements the chain's interface without gas metering; peers are models"],
    });
    std::fs::create_dir_all(format!("{}/evidence", root)).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", root, d.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases, {} distinct non-trivial, {} contract calls, {:.1}s", d.id, tier, evals, nt.len(), calls, t0.elapsed().as_secs_f64());
    if !paths.is_empty() {
        return 1;
    }
    if let Some(e) = err {
        eprintln!("error: {}", e);
        return 2;
    }
    0
}
