//! The properties. Each module states one or more as a generator plus an oracle.
use crate::chain::*;
use crate::ex::*;
use crate::ops::*;
use crate::run::*;

mod admin;
mod c01;
mod farm;
mod farming;
mod farming2;
mod forks;
mod gates;
mod holdings;
mod instant;
mod locks;
mod logs;
mod mft;
mod oracles;
mod ramp;
mod renumber;
mod settle;
mod staking;
mod storage;
mod trade;
mod twap;
mod upgrade;
mod views;

pub fn all() -> Vec<Def> {
    let mut v = vec![];
    v.extend(c01::defs());
    v.extend(holdings::defs());
    v.extend(settle::defs());
    v.extend(mft::defs());
    v.extend(locks::defs());
    v.extend(storage::defs());
    v.extend(trade::defs());
    v.extend(forks::defs());
    v.extend(ramp::defs());
    v.extend(instant::defs());
    v.extend(gates::defs());
    v.extend(admin::defs());
    v.extend(oracles::defs());
    v.extend(twap::defs());
    v.extend(upgrade::defs());
    v.extend(farming::defs());
    v.extend(farming2::defs());
    v.extend(views::defs());
    v.extend(staking::defs());
    v.extend(renumber::defs());
    v.extend(logs::defs());
    v
}

/// An observer of a history.
pub trait Watch {
    fn spec(&self) -> SnapSpec;
    fn settle(&self) -> bool {
        false
    }
    fn start(&mut self, _e: &mut Ex, _s: &Snap) -> Res {
        Ok(())
    }
    fn before(&mut self, _e: &Ex, _op: &Op, _s: &Snap) -> Res {
        Ok(())
    }
    fn step(&mut self, e: &Ex, op: &Op, run: &OpRun, a: &Snap, b: &Snap, st: &mut Stats) -> Res;
    fn finish(&mut self, _e: &mut Ex, _s: &Snap, _st: &mut Stats) -> Res {
        Ok(())
    }
}

pub fn op_name(op: &Op) -> String {
    let s = format!("{:?}", op);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

pub fn drive(h: &Hist, w: &mut dyn Watch, st: &mut Stats) -> Result<Ex, Viol> {
    drive_from(h, w, st, |_| ())
}
pub fn drive_from(h: &Hist, w: &mut dyn Watch, st: &mut Stats, prepare: impl FnOnce(&mut Ex)) -> Result<Ex, Viol> {
    let mut e = Ex::with(&h.setup);
    prepare(&mut e);
    let spec = w.spec();
    let mut a = e.snap(&spec);
    w.start(&mut e, &a)?;
    let mut todo: std::collections::VecDeque<Op> = h.ops.iter().cloned().collect();
    while let Some(op) = todo.pop_front() {
        // receipt by receipt
        if op == Op::Drain && e.w.ready().len() > 0 {
            todo.push_front(Op::Drain);
            todo.push_front(Op::Step { k: 0, fail: false });
            continue;
        }
        let op = &op;
        w.before(&e, op, &a)?;
        let r = e.run(op, w.settle());
        let b = e.snap_after(&spec, op, &r.executed, &a);
        if let Some(c) = &r.call {
            st.label(&format!("{} {}", op_name(op), if r.executed.iter().all(|x| x.ok()) { "ok" } else { "fails" }));
            let _ = c;
        }
        w.step(&e, op, &r, &a, &b, st)?;
        a = b;
    }
    // let everything that is still under way come to an end
    while !e.w.ready().is_empty() {
        let op = Op::Step { k: 0, fail: false };
        w.before(&e, &op, &a)?;
        let r = OpRun { call: None, executed: e.w.step(0, None).into_iter().collect() };
        let b = e.snap_after(&spec, &op, &r.executed, &a);
        w.step(&e, &op, &r, &a, &b, st)?;
        a = b;
    }
    w.finish(&mut e, &a, st)?;
    Ok(e)
}

/// a description of what just ran, for messages
pub fn show(run: &OpRun) -> String {
    run.executed
        .iter()
        .map(|x: &Executed| format!("{}->{}.{}({}) {}", x.predecessor, x.receiver, x.method, String::from_utf8_lossy(&x.args), match &x.result {
            Ok(v) => format!("= {}", String::from_utf8_lossy(v)),
            Err(m) => format!("failed: {}", m),
        }))
        .collect::<Vec<_>>()
        .join("; ")
}
