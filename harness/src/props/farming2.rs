//! C44 (who may do what, pause), C46 (upgrades), C47 (storage credit) of the farming contract.
use super::farm::*;
use super::*;
use crate::chain::NEAR;
use crate::ensure;
use crate::vm::PromiseRes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;

struct Quiet;
impl FWatch for Quiet {
    fn unclaimed(&self) -> bool {
        false
    }
    fn step(&mut self, _f: &Fx, _x: Option<&Executed>, _a: &FSnap, _b: &FSnap, _st: &mut Stats) -> Res {
        Ok(())
    }
}
/// the state a history leads to, calls still under way
fn after(f: &mut Fx, h: &FHist) {
    if h.frac {
        f.w.now += 500_000_000;
    }
    let mut ops = setup_ops(h);
    for o in &h.ops {
        ops.push(o.clone());
        if h.eager {
            ops.push(Fo::Drain);
        }
    }
    for op in ops {
        if op == Fo::Drain {
            f.w.drain();
        } else {
            f.run(&op);
        }
    }
}
/// incoming transfers come to an end, settlements stay open
fn arrive(f: &mut Fx) {
    while let Some(i) = f.w.ready().iter().position(|i| f.w.pending[*i].actions.iter().any(|a| matches!(a, crate::vm::Action::Call { method, .. } if method.contains("on_transfer") || method.contains("resolve_transfer")))) {
        f.w.step(i, None);
    }
}

// ---- C44

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gate {
    h: FHist,
    paused: bool,
    moved: bool,
    calls: Vec<(u8, u8, u8, u8)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Owner,
    Itself,
    Nobody,
    User,
    /// for users, and not stopped by a pause of the contract
    Free,
}
struct M {
    name: &'static str,
    role: Role,
    /// deposit it takes
    dep: Dep,
    args: fn(&Fx, &str, u8) -> Value,
}
#[derive(Clone, Copy, PartialEq)]
enum Dep {
    None,
    One,
    Any,
}
fn seed_of(k: u8) -> &'static str {
    SEEDS[k as usize % 4]
}
fn methods() -> Vec<M> {
    use Dep::*;
    use Role::*;
    let m = |name, role, dep, args| M { name, role, dep, args };
    vec![
        m("set_owner", Owner, None, |_, _, k| json!({ "owner_id": PEOPLE[k as usize % 4] })),
        m("force_clean_farm", Owner, None, |f, _, k| json!({ "farm_id": f.farm(k % 200) })),
        m("modify_seed_min_deposit", Owner, None, |_, _, k| json!({"seed_id": seed_of(k), "min_deposit": (k as u128 * 1000).to_string()})),
        m("create_simple_farm", Owner, Any, |f, _, k| json!({"terms": f.terms_json(&Terms { seed: k, tok: k / 4, start: 0, per: k % 7, interval: k % 7, min: 0 }), "min_deposit": "1"})),
        m("pause_contract", Owner, One, |_, _, _| json!({})),
        m("resume_contract", Owner, One, |_, _, _| json!({})),
        m("callback_post_withdraw_reward", Itself, None, |_, _, k| json!({"token_id": REWARDS[k as usize % 3], "sender_id": PEOPLE[k as usize % 4], "amount": "1000000"})),
        m("callback_post_withdraw_ft_seed", Itself, None, |_, _, k| json!({"seed_id": (["seeda.near", BOTH][k as usize % 2]), "sender_id": PEOPLE[k as usize % 4], "amount": "1000000"})),
        m("callback_post_withdraw_mft_seed", Itself, None, |_, _, k| json!({"seed_id": (["amm.near@0", "amm.near@17"][k as usize % 2]), "sender_id": PEOPLE[k as usize % 4], "amount": "1000000"})),
        m("migrate", Itself, None, |_, _, _| json!({})),
        m("new", Nobody, None, |_, who, _| json!({ "owner_id": who })),
        m("remove_user_rps_by_farm", User, None, |f, _, k| json!({ "farm_id": f.farm(k % 200) })),
        m("claim_reward_by_farm", User, None, |f, _, k| json!({ "farm_id": f.farm(k % 200) })),
        m("claim_reward_by_seed", User, None, |_, _, k| json!({ "seed_id": seed_of(k) })),
        m("withdraw_reward", User, One, |f, who, k| {
            let r = f.v("list_rewards", json!({ "account_id": who }));
            let t = r.as_object().and_then(|m| m.keys().nth(k as usize % m.len().max(1)).cloned()).unwrap_or(REWARDS[0].into());
            json!({ "token_id": t })
        }),
        m("withdraw_seed", User, One, |f, who, k| {
            let r = f.v("list_user_seeds", json!({ "account_id": who }));
            let t = r.as_object().and_then(|m| m.keys().nth(k as usize % m.len().max(1)).cloned()).unwrap_or(SEEDS[0].into());
            json!({"seed_id": t, "amount": "1"})
        }),
        m("storage_deposit", User, Any, |_, _, _| json!({})),
        m("storage_withdraw", User, One, |_, _, _| json!({})),
        m("storage_unregister", User, One, |_, _, _| json!({})),
        m("ft_on_transfer", User, None, |f, _, k| json!({"sender_id": "alice.near", "amount": "7000000000000000000000000", "msg": if k & 1 == 0 { String::new() } else { f.farm(k / 2 % 100) }})),
        m("mft_on_transfer", User, None, |_, _, k| json!({"token_id": ([":0", ":17", ":3"][k as usize % 3]), "sender_id": "alice.near", "amount": "7000000000000000000000000", "msg": ""})),
    ]
}
fn look(f: &Fx) -> (FSnap, Vec<(String, u128)>, usize) {
    let near = PEOPLE.iter().chain([&"mallory.near", &FA]).map(|p| (p.to_string(), f.w.balance(p))).collect();
    (f.snap(true), near, f.w.pending.len())
}
fn gate(c: &Gate, st: &mut Stats) -> Res {
    let _ = Role::Free;
    let mut f = Fx::base();
    after(&mut f, &c.h);
    arrive(&mut f);
    // (histories may have paused it)
    f.w.tx(OWNER, FA, "resume_contract", json!({}), 1);
    let mut owner = OWNER.to_string();
    if c.moved {
        let r = f.w.tx(OWNER, FA, "set_owner", json!({"owner_id": "carol.near"}), 0);
        ensure!(r.ok(), "owner-refused", "{}", xshow(&r));
        owner = "carol.near".into();
    }
    if c.paused {
        let r = f.w.tx(&owner, FA, "pause_contract", json!({}), 1);
        ensure!(r.ok(), "owner-refused", "{}", xshow(&r));
    }
    let ms = methods();
    let mut hits = 0;
    for (mi, ci, di, k) in &c.calls {
        let m = &ms[*mi as usize % ms.len()];
        let caller = match ci % 10 {
            0..=3 => owner.clone(),
            4 => FA.to_string(),
            5 => "mallory.near".to_string(),
            6 => "seeda.near".to_string(),
            7 if c.moved => OWNER.to_string(),
            x => USERS[x as usize % 4].to_string(),
        };
        let teller = ["ft_on_transfer", "mft_on_transfer"].contains(&m.name) && ci % 3 > 0;
        let caller = match m.name {
            // from contracts whose word counts
            "mft_on_transfer" if teller => "amm.near".to_string(),
            "ft_on_transfer" if teller => ["seeda.near", BOTH, REWARDS[0], REWARDS[1]][*ci as usize / 3 % 4].to_string(),
            _ => caller,
        };
        // the contract itself acts only through what it has sent
        if caller == FA && m.role == Role::User {
            continue;
        }
        let one = m.dep == Dep::One;
        let dep: u128 = match m.dep {
            Dep::None => [0, 0, 0, 1, NEAR][*di as usize % 5],
            Dep::One => [1, 1, 1, 0, 2, NEAR][*di as usize % 6],
            Dep::Any => [NEAR, NEAR, 0, 1, NEAR / 10_000][*di as usize % 5],
        };
        let args = (m.args)(&f, &caller, *k);
        f.w.drain_transfers();
        let a = look(&f);
        let state_paused = a.0.paused;
        let x = if m.role == Role::Itself {
            let ok = if *k & 1 == 0 { PromiseRes::Ok(b"null".to_vec()) } else { PromiseRes::Failed };
            *f.w.near.entry(caller.clone()).or_insert(0) += 2 * NEAR;
            let r = f.w.callback(&caller, FA, m.name, args.clone(), dep, if m.name == "migrate" { vec![] } else { vec![ok] });
            *f.w.near.entry(caller.clone()).or_insert(0) -= 2 * NEAR;
            r
        } else {
            f.w.near.entry(caller.clone()).or_insert(100 * NEAR);
            f.w.tx(&caller, FA, m.name, args.clone(), dep)
        };
        let what = xshow(&x);
        let b = look(&f);
        let right_dep = match m.dep {
            Dep::None => dep == 0,
            Dep::One => dep == 1,
            Dep::Any => true,
        };
        let role_ok = match m.role {
            Role::Owner => caller == owner,
            Role::Itself => caller == FA,
            Role::Nobody => false,
            Role::User | Role::Free => true,
        };
        if !role_ok {
            ensure!(!x.ok(), "by-anybody", "{} with {} yocto by {} (owner {})", what, dep, caller, owner);
            hits += 1;
        } else if !right_dep {
            ensure!(!x.ok(), "wrong-deposit", "{} with {} yocto", what, dep);
            hits += 1;
        } else if m.role == Role::User && state_paused {
            ensure!(!x.ok(), "while-paused", "{}", what);
            st.label("refused while paused");
            hits += 1;
        } else if m.role == Role::Owner {
            // the owner's calls work, paused or not
            let exists = |s: &str| a.0.seeds.contains_key(s);
            match m.name {
                "set_owner" => {
                    let to = args["owner_id"].as_str().unwrap();
                    ensure!(x.ok() && b.0.owner == to, "owner-refused", "{}: the owner is {}", what, b.0.owner);
                    let mut e = a.0.clone();
                    e.owner = to.into();
                    ensure!(e == b.0, "side-effect", "{}", what);
                    owner = to.into();
                }
                "pause_contract" | "resume_contract" => {
                    let mut e = a.0.clone();
                    e.paused = m.name == "pause_contract";
                    ensure!(x.ok() && e == b.0, "owner-refused", "{}: paused {}", what, b.0.paused);
                }
                "modify_seed_min_deposit" => {
                    let s = args["seed_id"].as_str().unwrap();
                    ensure!(x.ok() == exists(s), "owner-refused", "{}", what);
                    if x.ok() {
                        let mut e = a.0.clone();
                        e.seeds.get_mut(s).unwrap().min = num_j(&args["min_deposit"]);
                        ensure!(e == b.0, "side-effect", "{}", what);
                    }
                }
                "create_simple_farm" => {
                    if dep == NEAR {
                        ensure!(x.ok(), "owner-refused", "{}", what);
                    }
                    if x.ok() {
                        ensure!(b.0.farms.len() == a.0.farms.len() + 1, "owner-refused", "{}", what);
                        f.w.drain_transfers();
                        let paid = a.1.iter().find(|z| z.0 == caller).unwrap().1 - f.w.balance(&caller);
                        ensure!(paid > 0 && paid < NEAR / 50, "farm-cost", "{} cost {}", what, paid);
                    }
                }
                _ => {
                    ensure!(x.ok(), "owner-refused", "{}", what);
                }
            }
            st.label("by the owner");
            continue;
        } else {
            st.label(if x.ok() { "allowed and done" } else { "allowed and refused for other reasons" });
            if x.ok() && m.name.ends_with("on_transfer") {
                // only contracts that are a seed or a reward can have said so
                ensure!(teller || caller == "seeda.near", "forged", "{}", what);
            }
            if x.ok() {
                // nobody else's belongings are touched
                for p in PEOPLE {
                    if p == caller || args["sender_id"] == p {
                        continue;
                    }
                    ensure!(a.0.rew[p] == b.0.rew[p] && a.0.stk[p] == b.0.stk[p] && a.0.stor.get(p) == b.0.stor.get(p), "touches-others", "{} changes what {} has", what, p);
                }
                ensure!(a.0.owner == b.0.owner && a.0.paused == b.0.paused, "side-effect", "{}", what);
            }
        }
        let _ = one;
        if !x.ok() {
            ensure!(a.0 == b.0 && a.2 == b.2, "refused-with-effect", "{}: {:?} -> {:?}", what, a.0, b.0);
            ensure!(a.1 == b.1, "refused-with-effect", "{}: NEAR {:?} -> {:?}", what, a.1, b.1);
        }
    }
    if c.paused && f.snap(false).paused {
        // what arrives is sent back, what is under way settles
        for (tok, args) in [
            ("seeda.near", json!({"receiver_id": FA, "amount": "7000000000000000000000000", "msg": ""})),
            ("rwd1.near", json!({"receiver_id": FA, "amount": "7000000000000000000000000", "msg": f.farm(0)})),
        ] {
            let (b0, c0, s) = (f.bal(tok, "dave.near"), f.bal(tok, FA), f.snap(false));
            f.w.model_mut(tok).token_mut().paused = false;
            let r = f.w.tx("dave.near", tok, "ft_transfer_call", args, 1);
            ensure!(r.ok(), "test", "{}", xshow(&r));
            let ids: Vec<u64> = r.spawned.clone();
            for id in ids {
                f.w.step_id(id);
            }
            ensure!(f.bal(tok, "dave.near") == b0 && f.bal(tok, FA) == c0 && f.snap(false) == s, "paused-keeps", "{} sent while paused is kept", tok);
        }
        let open: Vec<u64> = f.w.pending.iter().filter(|r| r.receiver == FA).map(|r| r.id).collect();
        for x in f.w.drain() {
            if open.contains(&x.id) {
                ensure!(x.ok(), "paused-settlement", "{}", xshow(&x));
                st.label("settlements while paused");
            }
        }
    }
    if hits > 0 {
        st.hit();
    }
    Ok(())
}

// ---- C46

fn farming_release() -> Vec<u8> {
    let dir = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let p = format!("{}/releases/ref_farming_release.wasm", dir);
    std::fs::read(&p).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", p, e);
        std::process::exit(3)
    })
}
thread_local! {
    static OLD: RefCell<Option<Fx>> = RefCell::new(None);
}
fn old() -> Fx {
    OLD.with(|b| b.borrow_mut().get_or_insert_with(|| Fx::build(crate::vm::Code::compile(&farming_release()))).clone())
}
fn upgrade(f: &mut Fx, who: &str, code: &[u8]) -> bool {
    let r = f.w.tx_raw(who, FA, "upgrade", code.to_vec(), 0);
    if !r.ok() {
        return false;
    }
    let ids = r.spawned.clone();
    let mut ok = true;
    for id in ids {
        let x = f.w.step_id(id);
        ok &= x.ok();
    }
    ok
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Up {
    h: FHist,
    /// 0: this release, 1: the previous release, 2: the form of state before that
    from: u8,
    bad: u8,
    then: Vec<Fo>,
}
/// an overflow of the old code is not what this is about
fn tame(h: &FHist) -> FHist {
    let fix = |t: &mut Terms| {
        if t.per % 10 == 7 || t.per % 10 == 9 {
            t.per = 1;
        }
        if t.interval % 8 == 7 {
            t.interval = 0;
        }
    };
    let mut h = h.clone();
    for t in &mut h.farms {
        fix(&mut t.0);
    }
    for o in &mut h.ops {
        match o {
            Fo::Create { t, .. } => fix(t),
            Fo::Pause(on) => *on = false,
            _ => {}
        }
    }
    h
}
fn ups(c: &Up, st: &mut Stats) -> Res {
    let h = tame(&c.h);
    let code = code("ref_farming").wasm().to_vec();
    let from = c.from % 3;
    let mut f = if from == 0 { Fx::base() } else { old() };
    after(&mut f, &h);
    let flying = f.w.pending.len();
    let a = f.snap(true);
    let meta = |f: &Fx| {
        let mut m = f.v("get_metadata", json!({}));
        m["version"] = json!("");
        m
    };
    let m0 = meta(&f);
    let beside = f.clone();
    if from == 2 {
        // the state as it was written before there was a running state
        let w = std::sync::Arc::make_mut(f.w.wasm.get_mut(FA).unwrap());
        let mut s = w.storage.get(&b"STATE"[..]).cloned().expect("state").to_vec();
        ensure!(s[0] == 1 && s[s.len() - 1] == 0, "test", "unexpected form of the state");
        s[0] = 0;
        s.pop();
        w.storage.insert(b"STATE".to_vec(), s.into());
    }
    let who = ["alice.near", "mallory.near", "seeda.near"][c.bad as usize % 3];
    if from != 2 {
        f.w.near.entry(who.into()).or_insert(NEAR);
        let s = f.w.wasm[FA].storage.clone();
        ensure!(!upgrade(&mut f, who, &code), "upgraded-by-anybody", "{}", who);
        for p in [who, OWNER] {
            let r = f.w.tx(p, FA, "migrate", json!({}), 0);
            ensure!(!r.ok(), "migrated-by-anybody", "{}", p);
        }
        let junk: Vec<u8> = match c.bad % 4 {
            0 => vec![],
            1 => b"\0asm".to_vec(),
            2 => code[..code.len() / 2].to_vec(),
            _ => super::super::ex::code("ref_exchange").wasm().to_vec(),
        };
        if c.bad % 4 > 0 {
            let before = f.w.wasm[FA].code.wasm().to_vec();
            ensure!(!upgrade(&mut f, OWNER, &junk), "bad-code", "code {} is taken", c.bad % 4);
            ensure!(f.w.wasm[FA].code.wasm() == &before[..] && f.w.wasm[FA].storage == s, "bad-code", "a failed upgrade has effects");
        }
    }
    if from == 2 {
        // the code that wrote that state is not in the repository: its own part of
        // an upgrade, to deploy and to call, is done here
        let w = std::sync::Arc::make_mut(f.w.wasm.get_mut(FA).unwrap());
        w.code = crate::ex::code("ref_farming").clone();
        for p in ["mallory.near", OWNER] {
            f.w.near.entry(p.into()).or_insert(NEAR);
            let r = f.w.tx(p, FA, "migrate", json!({}), 0);
            ensure!(!r.ok(), "migrated-by-anybody", "{}", p);
        }
        let r = f.w.tx(FA, FA, "migrate", json!({}), 0);
        ensure!(r.ok(), "upgrade-fails", "from {}: {}", from, xshow(&r));
    } else {
        ensure!(upgrade(&mut f, OWNER, &code), "upgrade-fails", "from {}", from);
    }
    let b = f.snap(true);
    ensure!(a == b, "state-changed", "from {}: {:?} -> {:?}", from, a, b);
    ensure!(m0 == meta(&f), "state-changed", "metadata {} -> {}", m0, meta(&f));
    for p in PEOPLE {
        if !a.stor.contains_key(p) {
            continue;
        }
        for id in f.ids.iter() {
            let q = json!({"account_id": p, "farm_id": id});
            ensure!(f.v("get_user_rps", q.clone()) == beside.v("get_user_rps", q.clone()), "state-changed", "rps of {} in {}", p, id);
        }
    }
    if from == 0 {
        // beside the same history without the upgrade
        let mut e = beside;
        e.w.block = f.w.block;
        for op in &c.then {
            let (x, y) = (e.run(op).1, f.run(op).1);
            if let (Some(x), Some(y)) = (x, y) {
                ensure!(x.result == y.result, "differs", "{} after an upgrade, {} without", xshow(&y), xshow(&x));
            }
        }
        e.w.drain();
        f.w.drain();
        ensure!(e.snap(true) == f.snap(true), "differs", "{:?} after an upgrade, {:?} without", f.snap(true), e.snap(true));
    } else {
        for op in &c.then {
            f.run(op);
        }
        f.w.drain();
    }
    let mut way = super::farming::Way { salt: c.bad, ..Default::default() };
    for who in USERS {
        way.out(&f, who, true, st)?;
    }
    if flying > 0 {
        st.label("with calls under way");
    }
    if !a.farms.is_empty() && a.stk.values().any(|m| !m.is_empty()) {
        st.hit();
    }
    Ok(())
}

// ---- C47

#[derive(Default)]
struct Credit {
    dep: BTreeMap<String, u128>,
    farms: u128,
    moved: u32,
    refused: u32,
}
impl FWatch for Credit {
    fn unclaimed(&self) -> bool {
        false
    }
    fn step(&mut self, f: &Fx, x: Option<&Executed>, a: &FSnap, b: &FSnap, st: &mut Stats) -> Res {
        let x = match x {
            Some(x) if x.receiver == FA => x,
            _ => return Ok(()),
        };
        let v = x.args_json();
        let what = xshow(x);
        let min = num_j(&f.v("storage_balance_bounds", json!({}))["min"]);
        // what the contract sends in NEAR alone
        let sent: Vec<(String, u128)> = f.w.pending.iter().filter(|r| x.spawned.contains(&r.id)).flat_map(|r| {
            r.actions.iter().filter_map(|c| match c {
                crate::vm::Action::Transfer(n) => Some((r.receiver.clone(), *n)),
                _ => None,
            }).collect::<Vec<_>>()
        }).collect();
        let mut want = a.stor.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>();
        let mut out: Vec<(String, u128)> = vec![];
        let p = x.predecessor.clone();
        if x.ok() {
            match x.method.as_str() {
                "storage_deposit" => {
                    let to = v["account_id"].as_str().map(|s| s.to_string()).unwrap_or(p.clone());
                    let only = v["registration_only"].as_bool().unwrap_or(false);
                    let new = a.stor.get(&to).map_or(true, |s| s.0 == 0);
                    if new {
                        ensure!(x.deposit >= min, "too-little-accepted", "{} with {} of {}", what, x.deposit, min);
                    }
                    let keep = if new && only { min } else { x.deposit };
                    if x.deposit > keep {
                        out.push((p.clone(), x.deposit - keep));
                    }
                    *want.entry(to).or_insert(0) += keep;
                    self.moved += 1;
                }
                "storage_withdraw" => {
                    let (d, u) = a.stor.get(&p).copied().unwrap_or((0, 0));
                    let n = if v["amount"].is_null() { d.saturating_sub(u) } else { num_j(&v["amount"]) };
                    ensure!(n + u <= d, "withdraws-locked", "{} with {} of which {} is locked", what, d, u);
                    *want.get_mut(&p).unwrap() -= n;
                    out.push((p.clone(), n));
                    self.moved += 1;
                }
                "withdraw_seed" => {
                    // who takes a whole stake out no longer takes up storage for it
                    let seed = v["seed_id"].as_str().unwrap_or("");
                    if b.stk.get(&p).map_or(true, |m| !m.contains_key(seed)) {
                        for id in b.farms.iter().filter(|z| z.1.seed == seed).map(|z| z.0) {
                            let r = f.v("get_user_rps", json!({"account_id": p, "farm_id": id}));
                            ensure!(r == "0", "storage-kept", "{} has no stake left and a record of {} at {}, after {}", p, r, id, what);
                            st.label("records freed");
                        }
                    }
                }
                "storage_unregister" => {
                    if x.json() == json!(true) {
                        out.push((p.clone(), want.remove(&p).unwrap_or(0)));
                        self.moved += 1;
                    } else {
                        ensure!(!a.stor.contains_key(&p), "not-unregistered", "{}", what);
                    }
                }
                "create_simple_farm" => {
                    let back: u128 = sent.iter().map(|s| s.1).sum();
                    ensure!(sent.iter().all(|s| s.0 == p) && back <= x.deposit, "farm-refund", "{}: {:?} of {}", what, sent, x.deposit);
                    self.farms += x.deposit - back;
                    out = sent.clone();
                }
                "callback_post_withdraw_reward" | "callback_post_withdraw_ft_seed" | "callback_post_withdraw_mft_seed" => {
                    // somebody who has left may be entered again, with nothing
                    let s = v["sender_id"].as_str().unwrap();
                    if !a.stor.contains_key(s) && b.stor.contains_key(s) {
                        want.insert(s.into(), 0);
                        st.label("entered again by a failed withdrawal");
                    }
                }
                _ => {}
            }
            // who takes up storage has paid for it
            let taker = match x.method.as_str() {
                "claim_reward_by_farm" | "claim_reward_by_seed" => Some(p.clone()),
                "ft_on_transfer" if v["msg"] == "" => v["sender_id"].as_str().map(|s| s.to_string()),
                "mft_on_transfer" => v["sender_id"].as_str().map(|s| s.to_string()),
                _ => None,
            };
            if let Some(t) = taker {
                match b.stor.get(&t) {
                    Some((d, u)) => ensure!(d >= u, "unpaid-storage", "{}: {} takes up {} and has paid {}", what, t, u, d),
                    None => return viol("unpaid-storage", format!("{}: {} is not registered", what, t)),
                }
            }
        } else if x.method.contains("storage") || x.method.contains("claim") {
            self.refused += 1;
            // with enough paid, registration and top-up are not refused
            if x.method == "storage_deposit" && !a.paused {
                let to = v["account_id"].as_str().map(|s| s.to_string()).unwrap_or(p.clone());
                let only = v["registration_only"].as_bool().unwrap_or(false);
                let good = match a.stor.get(&to) {
                    None => x.deposit >= min,
                    Some((d, u)) if *d > 0 => !only && x.deposit + d >= *u,
                    _ => x.deposit >= min,
                };
                ensure!(!good, "deposit-refused", "{} with {}", what, x.deposit);
            }
            if x.method == "storage_withdraw" && !a.paused && x.deposit == 1 {
                let (d, u) = a.stor.get(&p).copied().unwrap_or((0, 0));
                let n = if v["amount"].is_null() { d.saturating_sub(u) } else { num_j(&v["amount"]) };
                ensure!(d == 0 || d < u || n > d - u, "withdrawal-refused", "{} with {} of which {} is locked", what, d, u);
            }
        }
        let have = b.stor.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>();
        ensure!(have == want, "credit", "storage deposits are {:?} instead of {:?}, after {}", have, want, what);
        ensure!(sent == out, "sent", "{} sends {:?} instead of {:?}", what, sent, out);
        for (p, (d, u)) in &b.stor {
            let s = f.v("storage_balance_of", json!({ "account_id": p }));
            ensure!(num_j(&s["total"]) == *d && num_j(&s["available"]) == d.saturating_sub(*u), "balance-view", "{}: {} where {} is paid and {} taken up", p, s, d, u);
        }
        ensure!(b.farmers as usize == b.stor.len(), "count", "{} farmers counted, {} registered, after {}", b.farmers, b.stor.len(), what);
        // and it is all there
        let sum: u128 = have.values().sum();
        let bal = f.w.balance(FA);
        ensure!(bal >= BASE_NEAR + sum + self.farms && bal < BASE_NEAR + sum + self.farms + 1_000, "near", "the contract has {} NEAR over its own, {} paid for storage and {} for farms, after {}", bal as i128 - BASE_NEAR as i128, sum, self.farms, what);
        let _ = &self.dep;
        Ok(())
    }
    fn finish(&mut self, _f: &Fx, _b: &FSnap, st: &mut Stats) -> Res {
        if self.moved >= 2 {
            st.hit();
        }
        if self.refused > 0 {
            st.label("histories with refusals");
        }
        Ok(())
    }
}

pub fn defs() -> Vec<Def> {
    let _ = Quiet;
    vec![
        def(
            "C44",
            "a generated state with calls under way, paused or not, with the original or another owner; then calls of every change method by generated callers with generated deposits, against a table of roles; incoming transfers and open settlements under pause; non-trivial: a call had to be refused for its caller, deposit or the pause",
            1600,
            80_000,
            || (fhist(3..20, false), any::<bool>(), any::<bool>(), prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()), 4..20)).prop_map(|(h, paused, moved, calls)| Gate { h, paused, moved, calls }).boxed(),
            |c: &Gate, st| gate(c, st),
        ),
        def(
            "C46",
            "a generated history on the release kept in the repository, in the current and the earlier form of state, or on the current code, then the upgrade amid calls under way: all views compared, a fork without the upgrade beside it, exits of everybody; bad code and other callers; non-trivial: there were farms and stakes",
            1200,
            50_000,
            || (fhist(5..40, false), any::<u8>(), any::<u8>(), prop::collection::vec(fop(), 1..8)).prop_map(|(h, from, bad, then)| Up { h, from, bad, then }).boxed(),
            |c: &Up, st| ups(c, st),
        ),
        def(
            "C47",
            "a generated history with many lean accounts against a ledger of storage credit and of the contract's NEAR after every receipt; non-trivial: at least two movements of storage credit",
            2400,
            100_000,
            || fhist(5..50, true),
            |h: &FHist, st| fdrive(h, &mut Credit::default(), st).map(|_| ()),
        ),
    ]
}
