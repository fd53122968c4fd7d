//! An exact model of the four kinds of pools and of the operations on them, in unbounded integers.
//! `Fail::Must`: the operation has no valid result. `Fail::Range`: some number leaves the contract's
//! 128- or 256/384-bit range, where it may refuse.
use crate::ex::*;
use num_bigint::BigUint as B;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Must(&'static str),
    Range,
}
pub type R<T> = Result<T, Fail>;
fn must<T>(s: &'static str) -> R<T> {
    Err(Fail::Must(s))
}
pub fn b(x: u128) -> B {
    B::from(x)
}
pub fn u(x: &B) -> R<u128> {
    crate::ops::big_u128(x).ok_or(Fail::Range)
}
fn sub(a: &B, c: &B) -> R<B> {
    if a < c { must("negative") } else { Ok(a - c) }
}
fn sub_u(a: u128, c: u128) -> R<u128> {
    a.checked_sub(c).ok_or(Fail::Must("negative"))
}
fn add_u(a: u128, c: u128) -> R<u128> {
    a.checked_add(c).ok_or(Fail::Range)
}
pub fn ratio(a: u128, n: u128, d: u128) -> R<u128> {
    u(&(b(a) * b(n) / b(d)))
}
const E4: u128 = 10_000;
pub fn prec() -> B {
    b(pow10(24))
}

/// the invariant curve of `n` coins with amplification `amp`; numbers above `bits` are out of range
#[derive(Clone, Copy)]
pub struct Curve {
    pub amp: u128,
    pub n: u32,
    pub bits: u64,
}
impl Curve {
    fn mul(&self, a: &B, c: &B) -> R<B> {
        let r = a * c;
        if r.bits() > self.bits { Err(Fail::Range) } else { Ok(r) }
    }
    fn div(&self, a: &B, c: &B) -> R<B> {
        if *c == b(0) { must("division by zero") } else { Ok(a / c) }
    }
    fn nn(&self) -> u128 {
        (self.n as u128).pow(self.n)
    }
    pub fn d(&self, c: &[u128]) -> R<B> {
        let sum: B = c.iter().map(|x| b(*x)).sum();
        u(&sum)?;
        if sum == b(0) {
            return Ok(b(0));
        }
        let ann = b(self.amp * self.nn());
        let n = b(self.n as u128);
        let lev = self.mul(&sum, &ann)?;
        let mut d = sum;
        for _ in 0..256 {
            let mut p = d.clone();
            for x in c {
                p = self.div(&self.mul(&p, &d)?, &(b(*x) * &n))?;
            }
            let old = d;
            let top = self.mul(&old, &(self.mul(&p, &n)? + &lev))?;
            let low = self.mul(&old, &(&ann - b(1)))? + self.mul(&p, &(&n + b(1)))?;
            d = self.div(&top, &low)?;
            let diff = if d > old { &d - &old } else { &old - &d };
            if diff <= b(1) {
                break;
            }
        }
        Ok(d)
    }
    /// the new balance of coin `j` when coin `i` becomes `x`
    pub fn y(&self, x: u128, c: &[u128], i: usize, j: usize) -> R<B> {
        let ann = b(self.amp * self.nn());
        let d = self.d(c)?;
        let mut s = b(x);
        let mut k = self.div(&self.mul(&d, &d)?, &b(x))?;
        for (h, v) in c.iter().enumerate() {
            if h != i && h != j {
                s += b(*v);
                k = self.div(&self.mul(&k, &d)?, &b(*v))?;
            }
        }
        u(&s)?;
        k = self.div(&self.mul(&k, &d)?, &(&ann * b(self.nn())))?;
        let bb = &d / &ann + &s;
        let mut y = d.clone();
        for _ in 0..256 {
            let old = y;
            let top = self.mul(&old, &old)? + &k;
            let low = sub(&(&old * b(2) + &bb), &d)?;
            y = self.div(&top, &low)?;
            let diff = if y > old { &y - &old } else { &old - &y };
            if diff <= b(1) {
                break;
            }
        }
        Ok(y)
    }
    /// sign of the curve's polynomial A n^n S + D - A n^n D - D^(n+1)/(n^n P) at `d`, exactly:
    /// not negative means that the true invariant is at least `d`
    pub fn reaches(&self, c: &[u128], d: &B) -> bool {
        let nn = b(self.nn());
        let ann = b(self.amp) * &nn;
        let s: B = c.iter().map(|x| b(*x)).sum();
        let mut p = nn;
        for x in c {
            p *= b(*x);
        }
        let mut pw = d.clone();
        for _ in 0..self.n {
            pw *= d;
        }
        (&ann * s + d) * &p >= ann * d * &p + pw
    }
}

pub fn mul_rate(x: u128, r: u128) -> R<u128> {
    u(&(b(x) * b(r) / prec()))
}
pub fn div_rate(x: u128, r: u128) -> R<u128> {
    if r == 0 {
        return must("zero rate");
    }
    u(&(b(x) * prec() / b(r)))
}

/// everything that a swap at a curve pool decides
#[derive(Clone, Debug, PartialEq)]
pub struct CurveSwap {
    pub out: u128,
    pub admin_fee: u128,
    pub fee: u128,
    pub c_in: u128,
    pub c_out: u128,
}

impl PoolS {
    pub fn curve(&self) -> Curve {
        Curve { amp: self.amp as u128, n: self.tokens.len() as u32, bits: if self.stable() { 256 } else { 384 } }
    }
    pub fn floor(&self) -> u128 {
        if self.stable() { pow10(15) } else { pow10(21) }
    }
    fn scaled(&self) -> bool {
        self.rated() || self.degen()
    }
    /// the reserves as the curve sees them
    pub fn seen(&self, c: &[u128]) -> R<Vec<u128>> {
        if self.scaled() {
            c.iter().zip(&self.rates).map(|(x, r)| mul_rate(*x, *r)).collect()
        } else {
            Ok(c.to_vec())
        }
    }
    pub fn inv(&self, c: &[u128]) -> R<B> {
        self.curve().d(&self.seen(c)?)
    }
    fn to_cs(&self, a: &[u128]) -> R<Vec<u128>> {
        a.iter().enumerate().map(|(i, x)| self.to_c_r(i, *x)).collect()
    }
    pub fn to_c_r(&self, i: usize, x: u128) -> R<u128> {
        let (d, t) = (self.decimals[i] as u32, self.target());
        if d <= t { x.checked_mul(pow10(t - d)).ok_or(Fail::Range) } else { Ok(x / pow10(d - t)) }
    }
    pub fn refresh(&mut self) {
        if !self.simple() {
            self.amounts = (0..self.tokens.len()).map(|i| self.from_c(i, self.c_amounts[i])).collect();
        }
    }
    /// (shares to mint, fee part in shares) for adding `a` (curve units)
    fn lp_in(&self, a: &[u128], fee: u32) -> R<(u128, u128)> {
        let n = self.tokens.len() as u32;
        let d0 = self.inv(&self.c_amounts)?;
        let mut nb: Vec<u128> = vec![];
        for (x, y) in self.c_amounts.iter().zip(a) {
            nb.push(add_u(*x, *y)?);
        }
        let d1 = self.inv(&nb)?;
        if d1 <= d0 {
            return must("adds no value");
        }
        self.imbalance(&mut nb, &d0, &d1, fee, n)?;
        let d2 = self.inv(&nb)?;
        let s = b(self.supply);
        let mint = u(&(&s * sub(&d2, &d0)? / &d0))?;
        let diff = u(&(&s * (&d1 - &d0) / &d0))?;
        Ok((mint, diff.checked_sub(mint).ok_or(Fail::Range)?))
    }
    fn lp_out(&self, a: &[u128], fee: u32) -> R<(u128, u128)> {
        let n = self.tokens.len() as u32;
        let d0 = self.inv(&self.c_amounts)?;
        let mut nb: Vec<u128> = vec![];
        for (x, y) in self.c_amounts.iter().zip(a) {
            nb.push(sub_u(*x, *y)?);
        }
        let d1 = self.inv(&nb)?;
        if d1 >= d0 {
            return must("removes no value");
        }
        self.imbalance(&mut nb, &d0, &d1, fee, n)?;
        let d2 = self.inv(&nb)?;
        let s = b(self.supply);
        let burn = u(&(&s * sub(&d0, &d2)? / &d0))?;
        let diff = u(&(&s * (&d0 - &d1) / &d0))?;
        Ok((burn, burn.checked_sub(diff).ok_or(Fail::Range)?))
    }
    fn imbalance(&self, nb: &mut [u128], d0: &B, d1: &B, fee: u32, n: u32) -> R<()> {
        let adj = fee * n / (4 * (n - 1));
        if *d0 == b(0) {
            return must("no value");
        }
        for i in 0..nb.len() {
            let ideal = u(&(d1 * b(self.c_amounts[i]) / d0))?;
            let diff = if ideal > nb[i] { ideal - nb[i] } else { nb[i] - ideal };
            nb[i] = sub_u(nb[i], ratio(diff, adj as u128, E4)?)?;
        }
        Ok(())
    }
    pub fn curve_swap(&self, i: usize, x: u128, j: usize, admin: u32) -> R<CurveSwap> {
        let cin = self.to_c_r(i, x)?;
        let seen = self.seen(&self.c_amounts)?;
        let (ri, rj) = if self.scaled() { (self.rates[i], self.rates[j]) } else { (0, 0) };
        let add = if self.scaled() { mul_rate(cin, ri)? } else { cin };
        let to = add_u(add, seen[i])?;
        let y = u(&self.curve().y(to, &seen, i, j)?)?;
        let dy = sub_u(seen[j], y)?.saturating_sub(1);
        let fee = ratio(dy, self.fee as u128, E4)?;
        let adm = ratio(fee, admin as u128, E4)?;
        let sw = dy - fee;
        let mut r = CurveSwap { out: sw, admin_fee: adm, fee, c_in: to, c_out: sub_u(sub_u(seen[j], sw)?, adm)? };
        if self.scaled() {
            r = CurveSwap { out: div_rate(r.out, rj)?, admin_fee: div_rate(adm, rj)?, fee: div_rate(fee, rj)?, c_in: div_rate(r.c_in, ri)?, c_out: div_rate(r.c_out, rj)? };
        }
        Ok(r)
    }
    pub fn isqrt_k(&self) -> B {
        (b(self.amounts[0]) * b(self.amounts[1])).sqrt()
    }
}

/// all pools together with what decides on the split of fees
#[derive(Clone, Debug)]
pub struct M {
    pub pools: Vec<PoolS>,
    pub admin: u32,
    /// the referrer's part, if it is on the list
    pub bps: Option<u32>,
    /// the pools in which the referrer is registered
    pub reg: Vec<bool>,
    /// shares that went to the exchange and to the referrer
    pub ex: Vec<u128>,
    pub rf: Vec<u128>,
    pub vols: Vec<Vec<(B, B)>>,
    pub swaps: u32,
}
fn parse_big(v: &Value) -> B {
    B::parse_bytes(v.as_str().unwrap_or("0").as_bytes(), 10).unwrap_or_default()
}
pub fn volumes(e: &Ex, n: usize) -> Vec<Vec<(B, B)>> {
    let ids: Vec<usize> = (0..n).collect();
    e.v("get_pool_volumes_by_ids", json!({ "pool_ids": ids }))
        .as_array()
        .unwrap()
        .iter()
        .map(|p| p.as_array().unwrap().iter().map(|v| (parse_big(&v["input"]), parse_big(&v["output"]))).collect())
        .collect()
}
impl M {
    pub fn new(e: &Ex, pools: &[PoolS]) -> M {
        let n = pools.len();
        M {
            pools: pools.to_vec(),
            admin: e.v("metadata", json!({}))["admin_fee_bps"].as_u64().unwrap() as u32,
            bps: e.v("list_referrals", json!({}))[REFER].as_u64().map(|x| x as u32),
            reg: (0..n).map(|i| e.v("mft_has_registered", json!({"token_id": format!(":{}", i), "account_id": REFER})) == json!(true)).collect(),
            ex: vec![0; n],
            rf: vec![0; n],
            vols: volumes(e, n),
            swaps: 0,
        }
    }
    fn mint(&mut self, p: usize, to_ref: u128, to_ex: u128) -> R<()> {
        let all = add_u(to_ref, to_ex)?;
        self.pools[p].supply = add_u(self.pools[p].supply, all)?;
        self.rf[p] += to_ref;
        self.ex[p] += to_ex;
        Ok(())
    }
    fn share_fee(&self, p: usize, shares: u128, refer: bool) -> R<u128> {
        match self.bps {
            Some(bps) if refer && self.reg[p] => ratio(shares, bps as u128, E4),
            _ => Ok(0),
        }
    }
    fn volume(&mut self, p: usize, i: usize, j: usize, x: u128, y: u128) {
        // a constant-product pool books both sides of a trade under the token paid in
        let j = if self.pools[p].simple() { i } else { j };
        self.vols[p][i].0 += b(x);
        self.vols[p][j].1 += b(y);
        self.swaps += 1;
    }
    fn ends(&self, p: usize, tin: &str, tout: &str) -> R<(usize, usize)> {
        let q = self.pools.get(p).ok_or(Fail::Must("no pool"))?;
        if tin == tout {
            return must("same token");
        }
        match (q.idx(tin), q.idx(tout)) {
            (Some(i), Some(j)) => Ok((i, j)),
            _ => must("not in pool"),
        }
    }
    fn simple_move(&mut self, p: usize, i: usize, x: u128, j: usize, y: u128, refer: bool) -> R<()> {
        let old = self.pools[p].isqrt_k();
        self.pools[p].amounts[i] = add_u(self.pools[p].amounts[i], x)?;
        self.pools[p].amounts[j] = sub_u(self.pools[p].amounts[j], y)?;
        let new = self.pools[p].isqrt_k();
        if new < old {
            return must("invariant falls");
        }
        let num = (&new - &old) * b(self.pools[p].supply);
        if self.admin > 0 && num > b(0) {
            let den = &old * b(E4) / b(self.admin as u128);
            if den == b(0) {
                return must("no fee base");
            }
            let all = u(&(num / den))?;
            let r = self.share_fee(p, all, refer)?;
            self.mint(p, r, all - r)?;
        }
        self.volume(p, i, j, x, y);
        Ok(())
    }
    pub fn swap(&mut self, p: usize, tin: &str, x: u128, tout: &str, refer: bool) -> R<u128> {
        let (i, j) = self.ends(p, tin, tout)?;
        if self.pools[p].simple() {
            let q = &self.pools[p];
            if x == 0 || q.amounts[i] == 0 || q.amounts[j] == 0 {
                return must("nothing to trade");
            }
            let w = b(x) * b(E4 - q.fee as u128);
            let y = u(&(&w * b(q.amounts[j]) / (b(E4) * b(q.amounts[i]) + &w)))?;
            self.simple_move(p, i, x, j, y, refer)?;
            return Ok(y);
        }
        let r = self.pools[p].curve_swap(i, x, j, self.admin)?;
        let out = self.pools[p].from_c(j, r.out);
        let q = &mut self.pools[p];
        q.c_amounts[i] = r.c_in;
        q.c_amounts[j] = r.c_out;
        if r.c_out < q.floor() {
            return must("reserve floor");
        }
        if self.admin > 0 && r.admin_fee > 0 {
            let mut a = vec![0; self.pools[p].tokens.len()];
            a[j] = r.admin_fee;
            let (all, _) = self.pools[p].lp_in(&a, 0)?;
            self.pools[p].c_amounts[j] += r.admin_fee;
            let rf = self.share_fee(p, all, refer)?;
            self.mint(p, rf, all - rf)?;
        }
        self.pools[p].refresh();
        self.volume(p, i, j, x, out);
        Ok(out)
    }
    /// the input that buys exactly `y`
    pub fn swap_out(&mut self, p: usize, tin: &str, y: u128, tout: &str, refer: bool) -> R<u128> {
        let (i, j) = self.ends(p, tin, tout)?;
        let q = &self.pools[p];
        if !q.simple() {
            return must("only constant-product pools");
        }
        if y == 0 || q.amounts[i] == 0 || y >= q.amounts[j] {
            return must("nothing to trade");
        }
        let x = u(&(b(q.amounts[i]) * b(y) * b(E4) / (b(q.amounts[j] - y) * b(E4 - q.fee as u128)) + b(1)))?;
        self.simple_move(p, i, x, j, y, refer)?;
        Ok(x)
    }
    /// (shares minted to the provider, amounts taken)
    pub fn add(&mut self, p: usize, a: &[u128]) -> R<(u128, Vec<u128>)> {
        let q = self.pools.get(p).ok_or(Fail::Must("no pool"))?.clone();
        if a.len() != q.tokens.len() {
            return must("number of amounts");
        }
        if q.simple() {
            if a.iter().any(|x| *x == 0) {
                return must("zero amount");
            }
            let (shares, used) = if q.supply == 0 {
                (pow10(24), a.to_vec())
            } else {
                let mut fair: Option<B> = None;
                for (x, r) in a.iter().zip(&q.amounts) {
                    if *r == 0 {
                        return must("empty reserve");
                    }
                    let f = b(*x - 1) * b(q.supply) / b(*r);
                    fair = Some(match fair {
                        Some(g) if g < f => g,
                        _ => f,
                    });
                }
                let fair = fair.unwrap();
                let mut used = vec![];
                for r in &q.amounts {
                    used.push(add_u(u(&(b(*r) * &fair / b(q.supply)))?, 1)?);
                }
                (u(&fair)?, used)
            };
            if shares == 0 {
                return must("no shares");
            }
            let m = &mut self.pools[p];
            for (r, x) in m.amounts.iter_mut().zip(&used) {
                *r = add_u(*r, *x)?;
            }
            m.supply = add_u(m.supply, shares)?;
            return Ok((shares, used));
        }
        let c = q.to_cs(a)?;
        let (shares, fee) = if q.supply == 0 {
            if c.iter().any(|x| *x == 0) {
                return must("zero amount");
            }
            (u(&q.inv(&c)?)?, 0)
        } else {
            q.lp_in(&c, q.fee)?
        };
        let m = &mut self.pools[p];
        for (r, x) in m.c_amounts.iter_mut().zip(&c) {
            *r = add_u(*r, *x)?;
        }
        m.supply = add_u(m.supply, shares)?;
        m.refresh();
        let adm = ratio(fee, self.admin as u128, E4)?;
        self.mint(p, 0, adm)?;
        Ok((shares, a.to_vec()))
    }
    pub fn remove(&mut self, p: usize, shares: u128) -> R<Vec<u128>> {
        let q = self.pools.get_mut(p).ok_or(Fail::Must("no pool"))?;
        if q.supply == 0 {
            return must("no shares");
        }
        let mut out = vec![];
        if q.simple() {
            for r in q.amounts.iter_mut() {
                let x = ratio(*r, shares, q.supply)?;
                *r = sub_u(*r, x)?;
                out.push(x);
            }
        } else {
            for i in 0..q.tokens.len() {
                let x = ratio(q.c_amounts[i], shares, q.supply)?;
                q.c_amounts[i] = sub_u(q.c_amounts[i], x)?;
                if q.c_amounts[i] < q.floor() {
                    return must("reserve floor");
                }
                out.push(q.from_c(i, x));
            }
            q.refresh();
        }
        q.supply = sub_u(q.supply, shares)?;
        Ok(out)
    }
    /// the shares burnt for taking out exactly `a`
    pub fn remove_by(&mut self, p: usize, a: &[u128]) -> R<u128> {
        let q = self.pools.get(p).ok_or(Fail::Must("no pool"))?.clone();
        if q.simple() || a.len() != q.tokens.len() {
            return must("not possible");
        }
        let mut c = q.to_cs(a)?;
        for i in 0..c.len() {
            if q.from_c(i, c[i]) < a[i] {
                c[i] += 1;
            }
            if q.c_amounts[i].checked_sub(c[i]).unwrap_or(0) < q.floor() {
                return must("reserve floor");
            }
        }
        let (burn, fee) = q.lp_out(&c, q.fee)?;
        let m = &mut self.pools[p];
        for (r, x) in m.c_amounts.iter_mut().zip(&c) {
            *r = sub_u(*r, *x)?;
        }
        m.supply = sub_u(m.supply, burn)?;
        m.refresh();
        let adm = ratio(fee, self.admin as u128, E4)?;
        self.mint(p, 0, adm)?;
        Ok(burn)
    }
}

/// deposits of the account that executes actions
pub type Purse = std::collections::BTreeMap<String, u128>;
pub fn take(m: &mut Purse, t: &str, x: u128) -> R<()> {
    if x == 0 {
        return Ok(());
    }
    match m.get_mut(t) {
        None => must("not registered"),
        Some(v) if *v < x => must("not enough"),
        Some(v) => {
            *v -= x;
            Ok(())
        }
    }
}
pub fn give(m: &mut Purse, t: &str, x: u128) {
    if x > 0 {
        *m.entry(t.to_string()).or_insert(0) += x;
    }
}
fn opt(v: &Value) -> Option<u128> {
    if v.is_null() { None } else { Some(num(v)) }
}
impl M {
    /// A list of actions on `purse`; `first` is what an instruction without an amount starts with.
    pub fn actions(&mut self, purse: &mut Purse, acts: &Value, refer: bool, first: Option<u128>) -> R<u128> {
        let empty = vec![];
        let acts = acts.as_array().unwrap_or(&empty);
        if acts.is_empty() {
            return Ok(first.unwrap_or(0));
        }
        let s = |v: &Value| v.as_str().unwrap_or("").to_string();
        let by_out = |a: &Value| a.get("min_amount_out").is_none();
        if acts.iter().any(|a| by_out(a) != by_out(&acts[0])) {
            return must("mixed");
        }
        let mut prev = first;
        if !by_out(&acts[0]) {
            for a in acts {
                let x = opt(&a["amount_in"]).or(prev).ok_or(Fail::Must("no amount"))?;
                take(purse, &s(&a["token_in"]), x)?;
                let y = self.swap(num(&a["pool_id"]) as usize, &s(&a["token_in"]), x, &s(&a["token_out"]), refer)?;
                if y < num(&a["min_amount_out"]) {
                    return must("slippage");
                }
                give(purse, &s(&a["token_out"]), y);
                prev = Some(y);
            }
        } else {
            let mut open: Option<String> = None;
            for a in acts {
                let y = match opt(&a["amount_out"]) {
                    Some(y) => {
                        if let Some(t) = open.take() {
                            take(purse, &t, prev.unwrap_or(0))?;
                        }
                        give(purse, &s(&a["token_out"]), y);
                        y
                    }
                    None => {
                        if open.as_deref() != a["token_out"].as_str() {
                            return must("chain broken");
                        }
                        prev.ok_or(Fail::Must("no amount"))?
                    }
                };
                let x = self.swap_out(num(&a["pool_id"]) as usize, &s(&a["token_in"]), y, &s(&a["token_out"]), refer)?;
                if let Some(m) = opt(&a["max_amount_in"]) {
                    if x > m {
                        return must("slippage");
                    }
                }
                prev = Some(x);
                open = Some(s(&a["token_in"]));
            }
            if let Some(t) = open {
                take(purse, &t, prev.unwrap_or(0))?;
            }
        }
        Ok(prev.unwrap_or(0))
    }
}

/// what a call to the exchange does besides changing pools
#[derive(Clone, Debug, Default)]
pub struct Out {
    /// account and its deposits afterwards
    pub deposits: Option<(String, Purse)>,
    pub shares: Vec<(String, usize, bool, u128)>,
    /// output of an instant swap
    pub sent: Option<Purse>,
    /// the operation answers with this number
    pub answer: Option<u128>,
    pub pools: Vec<usize>,
}
fn pools_in(v: &Value, key: &str) -> Vec<usize> {
    v[key].as_array().map(|a| a.iter().map(|x| num(&x["pool_id"]) as usize).collect()).unwrap_or_default()
}
fn at_least(got: &[u128], min: &[u128]) -> R<()> {
    if got.iter().zip(min).any(|(g, m)| g < m) { must("slippage") } else { Ok(()) }
}
impl M {
    /// the pools a call to the exchange is about; `None`: none
    pub fn touched(c: &crate::ops::Call) -> Option<Vec<usize>> {
        match (&c.to[..], &c.method[..]) {
            (EX, "swap") | (EX, "swap_by_output") | (EX, "execute_actions") | (EX, "execute_actions_in_va") => Some(pools_in(&c.args, "actions")),
            (EX, "add_liquidity") | (EX, "add_stable_liquidity") | (EX, "remove_liquidity") | (EX, "remove_liquidity_by_tokens") | (EX, "remove_exchange_fee_liquidity") => Some(vec![num(&c.args["pool_id"]) as usize]),
            (_, "ft_transfer_call") if c.args["receiver_id"] == EX => {
                let m: Value = serde_json::from_str(c.args["msg"].as_str().unwrap_or("")).unwrap_or(Value::Null);
                let mut v = pools_in(&m, "actions");
                v.extend(pools_in(&m, "hot_zap_actions"));
                v.extend(pools_in(&m, "add_liquidity_infos"));
                if v.is_empty() { None } else { Some(v) }
            }
            _ => None,
        }
    }
    pub fn apply(&mut self, c: &crate::ops::Call, s: &Snap) -> Option<R<Out>> {
        let pools = M::touched(c)?;
        let me = c.signer.clone();
        let mut o = Out { pools, ..Default::default() };
        let mut dep: Purse = s.dep.get(&me).cloned().unwrap_or_default();
        let a = &c.args;
        let refer = a["referral_id"] == REFER;
        let p = a["pool_id"].as_u64().unwrap_or(0) as usize;
        let free = |pool: usize| {
            let (f, b) = s.lock(&me, pool as u64);
            s.sh(&me, pool) - f.max(b)
        };
        Some((|| {
            match &c.method[..] {
                "swap" | "swap_by_output" | "execute_actions" => {
                    o.answer = Some(self.actions(&mut dep, &a["actions"], refer, None)?);
                    o.deposits = Some((me.clone(), dep.clone()));
                }
                "execute_actions_in_va" => {
                    let mut va = Purse::new();
                    for (t, x) in map_num(&a["use_tokens"]) {
                        take(&mut dep, &t, x)?;
                        give(&mut va, &t, x);
                    }
                    self.actions(&mut va, &a["actions"], refer, None)?;
                    for (t, x) in va {
                        give(&mut dep, &t, x);
                    }
                    o.deposits = Some((me.clone(), dep.clone()));
                }
                "add_liquidity" => {
                    if !self.pools.get(p).map_or(false, |q| q.simple()) {
                        return must("kind of pool");
                    }
                    let (shares, used) = self.add(p, &nums(&a["amounts"]))?;
                    at_least(&used, &nums(&a["min_amounts"]))?;
                    for (t, x) in self.pools[p].tokens.clone().iter().zip(&used) {
                        take(&mut dep, t, *x)?;
                    }
                    o.answer = Some(shares);
                    o.shares.push((me.clone(), p, true, shares));
                    o.deposits = Some((me.clone(), dep.clone()));
                }
                "add_stable_liquidity" => {
                    if self.pools.get(p).map_or(true, |q| q.simple()) {
                        return must("kind of pool");
                    }
                    let (shares, used) = self.add(p, &nums(&a["amounts"]))?;
                    at_least(&[shares], &[num(&a["min_shares"])])?;
                    for (t, x) in self.pools[p].tokens.clone().iter().zip(&used) {
                        take(&mut dep, t, *x)?;
                    }
                    o.answer = Some(shares);
                    o.shares.push((me.clone(), p, true, shares));
                    o.deposits = Some((me.clone(), dep.clone()));
                }
                "remove_liquidity" => {
                    let n = num(&a["shares"]);
                    if n > free(p) {
                        return must("free shares");
                    }
                    let out = self.remove(p, n)?;
                    at_least(&out, &nums(&a["min_amounts"]))?;
                    for (t, x) in self.pools[p].tokens.iter().zip(&out) {
                        give(&mut dep, t, *x);
                    }
                    o.shares.push((me.clone(), p, false, n));
                    o.deposits = Some((me.clone(), dep.clone()));
                }
                "remove_exchange_fee_liquidity" => {
                    let n = num(&a["shares"]);
                    if n > s.sh(EX, p) {
                        return must("shares");
                    }
                    let out = self.remove(p, n)?;
                    at_least(&out, &nums(&a["min_amounts"]))?;
                    let mut dep = s.dep.get(OWNER).cloned().unwrap_or_default();
                    for (t, x) in self.pools[p].tokens.iter().zip(&out) {
                        give(&mut dep, t, *x);
                    }
                    o.shares.push((EX.into(), p, false, n));
                    o.deposits = Some((OWNER.into(), dep));
                }
                "remove_liquidity_by_tokens" => {
                    let am = nums(&a["amounts"]);
                    let burn = self.remove_by(p, &am)?;
                    if burn > free(p) {
                        return must("free shares");
                    }
                    if burn > num(&a["max_burn_shares"]) {
                        return must("slippage");
                    }
                    for (t, x) in self.pools[p].tokens.iter().zip(&am) {
                        give(&mut dep, t, *x);
                    }
                    o.answer = Some(burn);
                    o.shares.push((me.clone(), p, false, burn));
                    o.deposits = Some((me.clone(), dep.clone()));
                }
                _ => {
                    let m: Value = serde_json::from_str(a["msg"].as_str().unwrap()).unwrap();
                    let refer = m["referral_id"] == REFER;
                    let x = num(&a["amount"]);
                    let mut va = Purse::new();
                    give(&mut va, &c.to, x);
                    let acts = if m["actions"].is_array() { &m["actions"] } else { &m["hot_zap_actions"] };
                    let by_out = acts[0].get("min_amount_out").is_none();
                    self.actions(&mut va, acts, refer, if by_out { None } else { Some(x) })?;
                    va.retain(|_, v| *v > 0);
                    if m["actions"].is_array() {
                        o.sent = Some(va);
                    } else {
                        for i in m["add_liquidity_infos"].as_array().unwrap() {
                            let p = num(&i["pool_id"]) as usize;
                            let (shares, used) = self.add(p, &nums(&i["amounts"]))?;
                            if self.pools[p].simple() {
                                at_least(&used, &nums(&i["min_amounts"]))?;
                            } else {
                                at_least(&[shares], &[num(&i["min_shares"])])?;
                            }
                            for (t, x) in self.pools[p].tokens.clone().iter().zip(&used) {
                                take(&mut va, t, *x)?;
                            }
                            o.shares.push((me.clone(), p, true, shares));
                        }
                        for (t, x) in va {
                            give(&mut dep, &t, x);
                        }
                        o.deposits = Some((me.clone(), dep.clone()));
                    }
                }
            }
            Ok(o)
        })())
    }
}
