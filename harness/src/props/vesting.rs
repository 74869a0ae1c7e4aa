//! G01: vesting.
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const T0: u64 = 1_700_000_000;
const DAVE: &str = "wasm1dave";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
struct Sched {
    t0: u64,
    #[serde(with = "s128")]
    a0: u128,
    t1: u64,
    #[serde(with = "s128")]
    a1: u128,
}
impl Sched {
    fn ended(&self) -> bool {
        self.t1 != 0
    }
    fn total(&self) -> u128 {
        if self.ended() {
            self.a1
        } else {
            self.a0
        }
    }
    /// released by `t`: nothing before the start, then linear (rounded down) up to the full amount
    fn unlocked(&self, t: u64) -> u128 {
        if t < self.t0 {
            0
        } else if !self.ended() {
            self.a0
        } else if t >= self.t1 {
            self.a1
        } else {
            // amounts below 2^90 and times below 2^31
            self.a0 + (self.a1 - self.a0) * ((t - self.t0) as u128) / ((self.t1 - self.t0) as u128)
        }
    }
    fn valid(&self, now: u64) -> bool {
        !self.ended() || (self.t0 < self.t1 && self.t1 > now && self.a0 < self.a1)
    }
    fn json(&self) -> Value {
        json!({"start_point": {"time": self.t0, "amount": self.a0.to_string()},
            "end_point": if self.ended() { json!({"time": self.t1, "amount": self.a1.to_string()}) } else { Value::Null }})
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// (account, schedules), and the amount paid
    Register { who: String, accs: Vec<(String, Vec<usize>)>, #[serde(with = "s128")] paid: u128, other: bool },
    Claim { who: String, to: Option<String>, #[serde(with = "crate::engine::o128")] amount: Option<u128> },
    Withdraw { who: String, acc: String, #[serde(with = "s128")] amount: u128, to: Option<String> },
    Until { t: u64 },
}
#[derive(Clone, Debug, Default)]
struct Acc {
    scheds: Vec<Sched>,
    released: u128,
}
impl Acc {
    fn available(&self, t: u64) -> u128 {
        self.scheds.iter().map(|s| s.unlocked(t)).sum::<u128>() - self.released
    }
    /// what the only active schedule has still to release, or None
    fn left(&self, t: u64) -> Option<u128> {
        let a: Vec<&Sched> = self.scheds.iter().filter(|s| s.ended() && s.t0 <= t && t < s.t1).collect();
        (a.len() == 1).then(|| a[0].a1 - a[0].unlocked(t))
    }
}
#[derive(Clone)]
struct S {
    w: World,
    acc: BTreeMap<String, Acc>,
    nreg: usize,
}
struct M {
    name: String,
    w0: World,
    v: String,
    tok: Tok,
    other: Tok,
    pal: Vec<Sched>,
    times: Vec<u64>,
}
impl M {
    fn register(&self, w: &mut World, who: &str, tok: &Tok, msg: Value, paid: u128) -> Result<Tx, String> {
        let m = json!({"register_vesting_accounts": {"vesting_accounts": msg}});
        match tok {
            Tok::N(d) => w.exec_json(who, &self.v, m, &if paid > 0 { vec![coin(paid, d)] } else { vec![] }),
            Tok::T(t) => w.exec_json(who, t, json!({"send": {"contract": self.v, "amount": paid.to_string(), "msg": b64(&m)}}), &[]),
        }
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        S { w: self.w0.clone(), acc: BTreeMap::new(), nreg: 0 }
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        let mut v = vec![];
        let tot = |p: &Vec<usize>| p.iter().map(|i| self.pal[*i].total()).sum::<u128>();
        let mut reg = |who: &str, accs: Vec<(&str, Vec<usize>)>, d: i128, other: bool| {
            let t: u128 = accs.iter().map(|(_, p)| tot(p)).sum();
            v.push(Op::Register { who: who.into(), accs: accs.into_iter().map(|(a, p)| (a.to_string(), p)).collect(), paid: (t as i128 + d) as u128, other });
        };
        if s.nreg < 3 {
            for i in 0..self.pal.len() {
                reg(OWNER, vec![(ALICE, vec![i])], 0, false);
            }
            reg(OWNER, vec![(BOB, vec![1])], 0, false);
            reg(OWNER, vec![(ALICE, vec![0, 1]), (BOB, vec![2])], 0, false);
            reg(OWNER, vec![(ALICE, vec![1]), (ALICE, vec![2])], 0, false);
            reg(OWNER, vec![(ALICE, vec![1])], 1, false);
            reg(OWNER, vec![(ALICE, vec![1])], -1, false);
            reg(OWNER, vec![(ALICE, vec![1])], 0, true);
            reg(OWNER, vec![], 1, false);
            reg(ALICE, vec![(ALICE, vec![1])], 0, false);
        }
        let now = s.w.time;
        for who in [ALICE, BOB] {
            match s.acc.get(who) {
                Some(a) => {
                    let av = a.available(now);
                    let mut am = vec![0, 1, av / 2, av, av + 1, av.saturating_sub(1)];
                    am.sort();
                    am.dedup();
                    for x in am {
                        v.push(Op::Claim { who: who.into(), to: None, amount: Some(x) });
                    }
                    v.push(Op::Claim { who: who.into(), to: None, amount: None });
                    v.push(Op::Claim { who: who.into(), to: Some(DAVE.into()), amount: None });
                    let left = a.left(now).unwrap_or(1000);
                    let mut am = vec![0, 1, left / 3, left.saturating_sub(1), left, left + 1];
                    am.sort();
                    am.dedup();
                    for x in am {
                        v.push(Op::Withdraw { who: OWNER.into(), acc: who.into(), amount: x, to: None });
                    }
                    v.push(Op::Withdraw { who: OWNER.into(), acc: who.into(), amount: 2, to: Some(DAVE.into()) });
                    v.push(Op::Withdraw { who: who.into(), acc: who.into(), amount: 1, to: None });
                }
                None => v.push(Op::Claim { who: who.into(), to: None, amount: None }),
            }
        }
        v.push(Op::Claim { who: OWNER.into(), to: None, amount: Some(1) });
        for t in &self.times {
            if T0 + t > now {
                v.push(Op::Until { t: T0 + t });
            }
        }
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        let now = s.w.time;
        let before = balances(&s.w);
        let mut e = Exp::default();
        let id = self.tok.id();
        let (kind, r, ok) = match op {
            Op::Until { t } => {
                n.w.advance(t - now, 1);
                return Ok(Some(n));
            }
            Op::Register { who, accs, paid, other } => {
                let msg: Vec<Value> = accs.iter().map(|(a, p)| json!({"address": a, "schedules": p.iter().map(|i| self.pal[*i].json()).collect::<Vec<_>>()})).collect();
                let r = self.register(&mut n.w, who, if *other { &self.other } else { &self.tok }, json!(msg), *paid);
                let total: u128 = accs.iter().flat_map(|(_, p)| p).map(|i| self.pal[*i].total()).sum();
                let ok = who == OWNER && !*other && total == *paid && *paid > 0 && accs.iter().flat_map(|(_, p)| p).all(|i| self.pal[*i].valid(now));
                for (a, p) in accs {
                    n.acc.entry(a.clone()).or_default().scheds.extend(p.iter().map(|i| self.pal[*i].clone()));
                }
                n.nreg += 1;
                e.mv(who, &self.v, id, *paid);
                ("register", r, ok)
            }
            Op::Claim { who, to, amount } => {
                let r = n.w.exec_json(who, &self.v, json!({"claim": {"recipient": to, "amount": amount.map(|x| x.to_string())}}), &[]);
                let av = s.acc.get(who).map(|a| a.available(now));
                let x = amount.unwrap_or(av.unwrap_or(0));
                let ok = av.is_some_and(|a| x <= a);
                if ok {
                    n.acc.get_mut(who).unwrap().released += x;
                    e.mv(&self.v, to.as_ref().unwrap_or(who), id, x);
                }
                (if to.is_some() { "claim-for" } else { "claim" }, r, ok)
            }
            Op::Withdraw { who, acc, amount, to } => {
                let r = n.w.exec_json(who, &self.v, json!({"withdraw_from_active_schedule": {"account": acc, "recipient": to, "withdraw_amount": amount.to_string()}}), &[]);
                let left = s.acc.get(acc).and_then(|a| a.left(now));
                let ok = who == OWNER && *amount > 0 && left.is_some_and(|l| *amount < l);
                if ok {
                    let sc = n.acc.get_mut(acc).unwrap().scheds.iter_mut().find(|x| x.ended() && x.t0 <= now && now < x.t1).unwrap();
                    sc.a0 = sc.unlocked(now);
                    sc.t0 = now;
                    sc.a1 -= amount;
                    e.mv(&self.v, to.as_ref().unwrap_or(who), id, *amount);
                }
                ("withdraw", r, ok)
            }
        };
        cov.hit(&format!("{kind}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        vensure!(r.is_ok() == ok, kind, "{op:?} at {}: {:?} (accounts {:?})", now as i64 - T0 as i64, r.err(), s.acc.iter().map(|(k, a)| (k, &a.scheds, a.released)).collect::<Vec<_>>());
        if !ok {
            return Ok(None);
        }
        let d = diff(&before, &balances(&n.w));
        vensure!(d == e.0, kind, "{op:?} moved {d:?} instead of {:?}", e.0);
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{:?}{}", s.acc, s.nreg));
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        let now = s.w.time;
        let mut owed = 0u128;
        for (a, x) in &s.acc {
            let av = s.w.q(&self.v, json!({"available_amount": {"address": a}})).map_err(|e| Viol { key: "query".into(), msg: e })?;
            vensure!(u(&av) == x.available(now), "available", "{a} has {av} available instead of {}", x.available(now));
            let r = s.w.q(&self.v, json!({"vesting_account": {"address": a}})).map_err(|e| Viol { key: "query".into(), msg: e })?;
            let mut got: Vec<Value> = r["info"]["schedules"].as_array().unwrap().clone();
            let mut exp: Vec<Value> = x.scheds.iter().map(|s| s.json()).collect();
            got.sort_by_key(|v| v.to_string());
            exp.sort_by_key(|v| v.to_string());
            vensure!(got == exp && u(&r["info"]["released_amount"]) == x.released, "schedules", "{a} has {r} instead of {exp:?}");
            let total = x.scheds.iter().map(|s| s.total()).sum::<u128>();
            // everything promised is released in the end
            vensure!(x.available(now + 10_000) + x.released == total, "total", "{a} gets {} in the end", x.available(now + 10_000));
            owed += total - x.released;
            if x.available(now) > 0 {
                cov.hit("something-available");
            }
        }
        vensure!(self.tok.bal(&s.w, &self.v) == owed, "solvency", "the contract holds {} and owes {owed}", self.tok.bal(&s.w, &self.v));
        let l = s.w.q(&self.v, json!({"vesting_accounts": {"order_by": "asc"}})).map_err(|e| Viol { key: "query".into(), msg: e })?;
        let l: Vec<&str> = l["vesting_accounts"].as_array().unwrap().iter().map(|x| x["address"].as_str().unwrap()).collect();
        vensure!(l == s.acc.keys().map(|x| x.as_str()).collect::<Vec<_>>(), "listing", "the accounts are {l:?}");
        Ok(())
    }
}
fn models(thorough: bool) -> Vec<M> {
    let s = |t0: i64, a0, t1: i64, a1| Sched { t0: (T0 as i64 + t0) as u64, a0, t1: if t1 == 0 { 0 } else { (T0 as i64 + t1) as u64 }, a1 };
    let pal = vec![
        s(-50, 10, 0, 0),
        s(0, 0, 100, 1000),
        s(50, 100, 110, 107),
        s(-30, 7, 7, 10_000_000_000_019),
        s(77, 5, 0, 0),
        // refused
        s(50, 1, 50, 2),
        s(0, 5, 100, 5),
        s(-30, 0, 1, 9),
    ];
    let times: Vec<u64> = if thorough { vec![1, 7, 49, 50, 51, 77, 99, 100, 110] } else { vec![1, 33, 50, 77, 100, 110] };
    let mut v = vec![];
    for cw in [false, true] {
        let mut w = World::new();
        let f = 1u128 << 100;
        let (tok, other) = if cw {
            let a = new_cw20(&mut w, "aaaa", 6, &[(OWNER, f), (ALICE, f)]);
            let b = new_cw20(&mut w, "bbbb", 6, &[(OWNER, f), (ALICE, f)]);
            (Tok::T(a), Tok::T(b))
        } else {
            for d in ["uaaa", "ubbb"] {
                w.fund(OWNER, d, f);
                w.fund(ALICE, d, f);
            }
            (native("uaaa"), native("ubbb"))
        };
        let a = new_vesting(&mut w, &tok);
        v.push(M { name: format!("G01:{}", if cw { "cw20" } else { "native" }), w0: w, v: a, tok, other, pal: pal.clone(), times: times.clone() });
    }
    v
}
/// (number of accounts, cursor index, limit, order)
type Page = (usize, Option<usize>, Option<u32>, Option<bool>);
fn listing(thorough: bool) -> Box<dyn Runner> {
    let mut cases: Vec<Page> = vec![];
    for n in if thorough { vec![0usize, 1, 2, 9, 10, 11, 29, 30, 31, 40] } else { vec![0, 1, 10, 11, 30, 31] } {
        for c in std::iter::once(None).chain((0..n).map(Some)) {
            for l in [None, Some(0), Some(1), Some(2), Some(10), Some(11), Some(30), Some(31), Some(u32::MAX)] {
                for o in [None, Some(true), Some(false)] {
                    cases.push((n, c, l, o));
                }
            }
        }
    }
    let worlds: std::sync::Mutex<BTreeMap<usize, (World, String)>> = Default::default();
    grid("G01:listing", cases, move |c: &Page, cov: &mut Cov| {
        let name = |i: usize| format!("wasm1acc{i:03}");
        let (w, v) = worlds
            .lock()
            .unwrap()
            .entry(c.0)
            .or_insert_with(|| {
                let mut w = World::new();
                w.fund(OWNER, "uaaa", 1 << 60);
                let v = new_vesting(&mut w, &native("uaaa"));
                if c.0 > 0 {
                    let acc: Vec<Value> = (0..c.0).map(|i| json!({"address": name(i), "schedules": [{"start_point": {"time": 5, "amount": (i + 1).to_string()}}]})).collect();
                    w.exec_json(OWNER, &v, json!({"register_vesting_accounts": {"vesting_accounts": acc}}), &[coin((c.0 * (c.0 + 1) / 2) as u128, "uaaa")]).unwrap();
                }
                (w, v)
            })
            .clone();
        let r = w
            .q(&v, json!({"vesting_accounts": {"start_after": c.1.map(name), "limit": c.2, "order_by": c.3.map(|a| if a { "asc" } else { "desc" })}}))
            .map_err(|e| Viol { key: "listing".into(), msg: e })?;
        let got: Vec<String> = r["vesting_accounts"].as_array().unwrap().iter().map(|x| x["address"].as_str().unwrap().to_string()).collect();
        let asc = c.3 == Some(true);
        let mut exp: Vec<usize> = (0..c.0).filter(|i| c.1.is_none_or(|k| if asc { *i > k } else { *i < k })).collect();
        if !asc {
            exp.reverse();
        }
        exp.truncate(c.2.unwrap_or(10).min(30) as usize);
        cov.hit("page");
        let exp: Vec<String> = exp.into_iter().map(name).collect();
        vensure!(got == exp, "listing", "{c:?}: {got:?} instead of {exp:?}");
        Ok(())
    })
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "G01",
        scenarios: |t| {
            let mut v: Vec<Box<dyn Runner>> = models(t).into_iter().map(|m| bounded(m, if t { 6 } else { 5 })).collect();
            v.push(listing(t));
            v
        },
        assumptions: &["the vesting token is an ordinary coin or cw20 token"],
    }]
}
