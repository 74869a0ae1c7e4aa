//! F01, F02: staking.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

const MIN: u128 = 1000;
const HOOKED: &str = "hooked";

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Enter { who: String, #[serde(with = "s128")] v: u128, to: Option<String>, denom: Option<String> },
    EnterHook { who: String, #[serde(with = "s128")] v: u128 },
    Leave { who: String, #[serde(with = "s128")] v: u128, to: Option<String>, denom: Option<String> },
    Donate { who: String, #[serde(with = "s128")] v: u128 },
    Give { from: String, to: String, #[serde(with = "s128")] v: u128 },
    Wait { s: u64 },
}
#[derive(Clone, Default)]
struct Flow {
    put: u128,
    got: u128,
    donated: u128,
}
#[derive(Clone)]
struct S {
    w: World,
    d: u128,
    t: u128,
    /// shares
    sh: BTreeMap<String, u128>,
    flow: BTreeMap<String, Flow>,
    /// largest rounding loss of all operations so far, in deposit units
    loss: u128,
    /// shares at the beginning of each second
    log: BTreeMap<u64, (BTreeMap<String, u128>, u128)>,
}
struct M {
    name: String,
    w0: World,
    c: String,
    x: String,
    sink: String,
    enter: Vec<u128>,
    donate: Vec<u128>,
    hist: bool,
}
impl M {
    fn to(&self, a: &str) -> String {
        if a == HOOKED {
            self.sink.clone()
        } else {
            a.to_string()
        }
    }
}
fn ceil(a: u128, b: u128) -> u128 {
    a.div_ceil(b)
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        S { w: self.w0.clone(), d: 0, t: 0, sh: BTreeMap::new(), flow: BTreeMap::new(), loss: 0, log: BTreeMap::from([(self.w0.time, (BTreeMap::new(), 0))]) }
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        let mut v = vec![];
        for who in USERS {
            for a in &self.enter {
                v.push(Op::Enter { who: who.into(), v: *a, to: None, denom: None });
            }
            let own = s.sh.get(who).copied().unwrap_or(0);
            let mut l = if self.hist { vec![own, own / 2] } else { vec![own, own / 2, own / 3, 1, own + 1] };
            l.retain(|x| *x > 0);
            l.sort();
            l.dedup();
            for x in l {
                v.push(Op::Leave { who: who.into(), v: x, to: None, denom: None });
            }
        }
        let a = s.sh.get(ALICE).copied().unwrap_or(0);
        if !self.hist {
            for d in &self.donate {
                v.push(Op::Donate { who: ALICE.into(), v: *d });
            }
            v.push(Op::Enter { who: BOB.into(), v: 5000, to: Some(ALICE.into()), denom: None });
            v.push(Op::EnterHook { who: BOB.into(), v: 7001 });
            v.push(Op::Enter { who: ALICE.into(), v: 5000, to: None, denom: Some("uother".into()) });
            v.push(Op::Enter { who: ALICE.into(), v: 0, to: None, denom: None });
            if a > 1 {
                v.push(Op::Enter { who: ALICE.into(), v: a, to: None, denom: Some(self.x.clone()) });
                v.push(Op::Leave { who: ALICE.into(), v: a - 1, to: Some(BOB.into()), denom: None });
                v.push(Op::Give { from: ALICE.into(), to: self.c.clone(), v: a / 2 });
            }
            v.push(Op::Leave { who: ALICE.into(), v: 5000, to: None, denom: Some(ASTRO.into()) });
            v.push(Op::Leave { who: ALICE.into(), v: 5000, to: None, denom: Some("uother".into()) });
        } else {
            v.push(Op::Wait { s: 1 });
            v.push(Op::Wait { s: 3 });
            v.push(Op::EnterHook { who: BOB.into(), v: 7001 });
        }
        if a > 2 {
            v.push(Op::Give { from: ALICE.into(), to: BOB.into(), v: a / 3 });
            v.push(Op::Give { from: ALICE.into(), to: BOB.into(), v: a });
        }
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        let before = balances(&s.w);
        let mut e = Exp::default();
        let enter = |v: u128| -> Option<(u128, u128)> {
            if s.t == 0 || s.d == 0 {
                (v > MIN).then(|| (v - MIN, MIN))
            } else {
                let m = v.checked_mul(s.t).unwrap() / s.d;
                (m > 0).then_some((m, 0))
            }
        };
        let (kind, r, ok) = match op {
            Op::Wait { s: k } => {
                n.w.advance(*k, 1);
                for t in s.w.time + 1..=n.w.time {
                    n.log.insert(t, (s.sh.clone(), s.t));
                }
                return Ok(Some(n));
            }
            Op::Enter { who, v, to, denom } => {
                let den = denom.as_deref().unwrap_or(ASTRO);
                let r = n.w.exec_json(who, &self.c, json!({"enter": {"receiver": to}}), &coins(&[(*v, den)]));
                let m = enter(*v).filter(|_| denom.is_none() && *v > 0);
                if let Some((m, lock)) = m {
                    let rec = to.as_ref().unwrap_or(who);
                    e.mv(who, &self.c, ASTRO, *v).add(rec, &self.x, m as i128);
                    if lock > 0 {
                        e.add(&self.c, &self.x, lock as i128);
                        *n.sh.entry(self.c.clone()).or_default() += lock;
                    } else {
                        n.loss += ceil(s.d, s.t);
                    }
                    *n.sh.entry(rec.clone()).or_default() += m;
                    n.flow.entry(rec.clone()).or_default().put += v;
                    n.d += v;
                    n.t += m + lock;
                    if let Ok(t) = &r {
                        let d: serde_json::Value = serde_json::from_slice(t.data.as_ref().map_or(b"null", |d| d.as_slice())).unwrap_or_default();
                        vensure!(d == json!({"astro_amount": v.to_string(), "xastro_amount": m.to_string()}), "data", "{op:?} answered {d}");
                    }
                }
                ("enter", r, m.is_some())
            }
            Op::EnterHook { who, v } => {
                let r = n.w.exec_json(who, &self.c, json!({"enter_with_hook": {"contract_address": self.sink, "msg": b64(&json!({"hi": 1}))}}), &coins(&[(*v, ASTRO)]));
                let m = enter(*v);
                if let Some((m, lock)) = m {
                    e.mv(who, &self.c, ASTRO, *v).add(&self.sink, &self.x, m as i128);
                    if lock > 0 {
                        e.add(&self.c, &self.x, lock as i128);
                        *n.sh.entry(self.c.clone()).or_default() += lock;
                    } else {
                        n.loss += ceil(s.d, s.t);
                    }
                    *n.sh.entry(self.sink.clone()).or_default() += m;
                    n.flow.entry(self.sink.clone()).or_default().put += v;
                    n.d += v;
                    n.t += m + lock;
                    if let Ok(t) = &r {
                        let c: Vec<_> = t.calls.iter().filter(|c| c.1 == self.sink).collect();
                        vensure!(c.len() == 1 && c[0].0 == self.c && c[0].2 == "{\"hi\":1}", "hook", "{op:?} called {c:?}");
                    }
                }
                ("enter-hook", r, m.is_some())
            }
            Op::Leave { who, v, to, denom } => {
                let den = denom.as_deref().unwrap_or(&self.x);
                let r = n.w.exec_json(who, &self.c, json!({"leave": {"receiver": to}}), &coins(&[(*v, den)]));
                let own = s.sh.get(who).copied().unwrap_or(0);
                // a return of nothing cannot be paid
                let ret = if denom.is_none() && *v <= own && s.t > 0 { Some(v.checked_mul(s.d).unwrap() / s.t).filter(|x| *x > 0) } else { None };
                if let Some(x) = ret {
                    let rec = to.as_ref().unwrap_or(who);
                    e.mv(&self.c, rec, ASTRO, x).add(who, &self.x, -(*v as i128));
                    *n.sh.get_mut(who).unwrap() -= v;
                    n.flow.entry(who.clone()).or_default().got += x;
                    n.d -= x;
                    n.t -= v;
                    n.loss += 1;
                    if let Ok(t) = &r {
                        let d: serde_json::Value = serde_json::from_slice(t.data.as_ref().map_or(b"null", |d| d.as_slice())).unwrap_or_default();
                        vensure!(d == json!({"astro_amount": x.to_string(), "xastro_amount": v.to_string()}), "data", "{op:?} answered {d}");
                    }
                }
                ("leave", r, ret.is_some())
            }
            Op::Donate { who, v } => {
                n.w.send(who, &self.c, ASTRO, *v).map_err(|e| e)?;
                n.d += v;
                n.flow.entry(who.clone()).or_default().donated += v;
                cov.hit("donation");
                return Ok(Some(n));
            }
            Op::Give { from, to, v } => {
                n.w.send(from, to, &self.x, *v).map_err(|e| Viol { key: "transfer".into(), msg: format!("{op:?} was refused: {e}") })?;
                // the value goes along
                let val = ceil(v.checked_mul(s.d).unwrap(), s.t);
                *n.sh.get_mut(from).unwrap() -= v;
                *n.sh.entry(to.clone()).or_default() += v;
                n.flow.entry(from.clone()).or_default().got += v * s.d / s.t;
                n.flow.entry(to.clone()).or_default().put += val;
                cov.hit("transfer");
                return Ok(Some(n));
            }
        };
        cov.hit(&format!("{kind}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        vensure!(r.is_ok() == ok, kind, "{op:?} with {} deposited and {} shares: {:?}", s.d, s.t, r.err());
        if !ok {
            return Ok(None);
        }
        let df = diff(&before, &balances(&n.w));
        vensure!(df == e.0, kind, "{op:?} with {} deposited and {} shares moved {df:?} instead of {:?}", s.d, s.t, e.0);
        // the price of a share never falls
        let sh = |w: &World| (w.bal(&self.c, ASTRO), w.supply(&self.x));
        let ((d0, t0), (d1, t1)) = (sh(&s.w), sh(&n.w));
        if t0 > 0 {
            vensure!(d1.checked_mul(t0).unwrap() >= d0.checked_mul(t1).unwrap(), "price", "{op:?} lowered the price from {d0}/{t0} to {d1}/{t1}");
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        for (k, f) in &s.flow {
            h.str(k);
            h.u128(f.put);
            h.u128(f.got);
            h.u128(f.donated);
        }
        h.str(&format!("{}{}{:?}{}{:?}", s.d, s.t, s.sh, s.loss, s.log));
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        let q = |m: serde_json::Value| s.w.q(&self.c, m).map_err(|e| Viol { key: "query".into(), msg: e });
        let d = u(&q(json!({"total_deposit": {}}))?);
        let t = u(&q(json!({"total_shares": {}}))?);
        vensure!(d == s.d && t == s.t, "totals", "{d} deposits and {t} shares instead of {} and {}", s.d, s.t);
        vensure!(s.t == s.sh.values().sum::<u128>(), "shares", "shares do not add up");
        if s.t > 0 {
            vensure!(s.w.bal(&self.c, &self.x) >= MIN, "locked", "only {} shares are locked", s.w.bal(&self.c, &self.x));
            let don: u128 = s.flow.values().map(|f| f.donated).sum();
            for (who, f) in s.flow.iter().filter(|x| *x.0 != self.c) {
                let val = s.sh.get(who).copied().unwrap_or(0).checked_mul(s.d).unwrap() / s.t;
                vensure!(f.got + val <= f.put + don + s.loss, "profit", "{who} put {} in and has {} out of {don} donated (rounding {})", f.put, f.got + val, s.loss);
            }
            cov.hit("staked");
        }
        for (who, x) in &s.sh {
            let b = u(&q(json!({"balance_at": {"address": who}}))?);
            vensure!(b == *x && b == s.w.bal(who, &self.x), "balance", "{who} has {b} instead of {x}");
        }
        let ts = u(&q(json!({"total_supply_at": {}}))?);
        vensure!(ts == s.t, "supply", "the supply is {ts} instead of {}", s.t);
        if self.hist {
            let now = s.w.time;
            for t in self.w0.time - 2..=now + 2 {
                let (b, sup) = if t >= now { (&s.sh, s.t) } else { s.log.get(&t).map_or((&self.none().0, 0), |x| (&x.0, x.1)) };
                for who in [ALICE, BOB, &self.c, &self.sink, CAROL] {
                    let r = u(&q(json!({"balance_at": {"address": who, "timestamp": t}}))?);
                    let x = b.get(who).copied().unwrap_or(0);
                    vensure!(r == x, "history", "at {t} (now {now}) {who} had {x} and not {r}");
                }
                let r = u(&q(json!({"total_supply_at": {"timestamp": t}}))?);
                vensure!(r == sup, "history", "at {t} (now {now}) the supply was {sup} and not {r}");
                cov.hit(if t < now { "past-second" } else { "current-second" });
            }
        }
        Ok(())
    }
}
impl M {
    fn none(&self) -> &'static (BTreeMap<String, u128>, u128) {
        static N: std::sync::OnceLock<(BTreeMap<String, u128>, u128)> = std::sync::OnceLock::new();
        N.get_or_init(Default::default)
    }
}
fn model(name: &str, enter: Vec<u128>, donate: Vec<u128>, hist: bool) -> M {
    let mut w = World::new();
    for a in USERS {
        w.fund(a, ASTRO, 1 << 110);
        w.fund(a, "uother", 1 << 100);
    }
    let c = new_staking(&mut w, ASTRO);
    let x = w.q(&c, json!({"config": {}})).unwrap()["xastro_denom"].as_str().unwrap().to_string();
    let sink = w.init(OWNER, SINK, &json!({}), &[]).unwrap();
    M { name: name.into(), w0: w, c, x, sink, enter, donate, hist }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "F01",
            scenarios: |t| {
                vec![
                    bounded(model("F01:small", vec![1, 999, 1000, 1001, 1002, 2500], vec![1, 777, 1_000_000], false), if t { 6 } else { 5 }),
                    bounded(model("F01:large", vec![1, 1001, 123_456_789_012_345, 1_000_000_000_000_000_000], vec![3, 99_999_999_999_999], false), if t { 6 } else { 4 }),
                ]
            },
            assumptions: &["the deposit token and the bank module behave as ordinary coins; the tracker is the published version staking works with"],
        },
        Prop {
            id: "F02",
            scenarios: |t| vec![bounded(model("F02", vec![1001, 4000], vec![], true), if t { 7 } else { 5 })],
            assumptions: &["staking works with the published tracker (version 1.0.0), which the staking contract's interface is made for"],
        },
    ]
}
