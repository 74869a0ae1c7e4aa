//! A12: transmuter pools.
use crate::engine::*;
use crate::pm::mul_div;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Swap { u: u8, i: usize, j: Option<usize>, #[serde(with = "s128")] v: u128, to: bool },
    Provide { u: u8, #[serde(with = "v128")] a: Vec<u128>, to: bool },
    /// pro rata: num / den of the user's LP
    Withdraw { u: u8, n: u128, d: u128 },
    /// chosen assets, sending exactly the needed LP plus `extra`
    Choose { u: u8, pick: Vec<(usize, String)>, extra: i8 },
    Donate { i: usize, #[serde(with = "s128")] v: u128 },
}
struct M {
    name: String,
    w0: World,
    p: Arc<Pool>,
    ops: Vec<Op>,
}
impl M {
    fn top(&self) -> u8 {
        *self.p.dec.iter().max().unwrap()
    }
    fn norm(&self, i: usize, v: u128) -> u128 {
        v * 10u128.pow((self.top() - self.p.dec[i]) as u32)
    }
}
fn usr(u: u8) -> &'static str {
    [ALICE, BOB, SEED][u as usize]
}
impl Model for M {
    type S = World;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> World {
        self.w0.clone()
    }
    fn ops(&self, _: &World, _: usize) -> Vec<Op> {
        self.ops.clone()
    }
    fn step(&self, w: &World, op: &Op, cov: &mut Cov) -> Result<Option<World>, Viol> {
        let p = &self.p;
        let mut n = w.clone();
        let x = p.reserves(w);
        let supply = p.supply(w);
        let mut e = Exp::default();
        // expected outcome: accepted or not, and the balance changes
        let (r, ok, k) = match op {
            Op::Swap { u, i, j, v, to } => {
                let mut m = json!({});
                if let Some(j) = j {
                    m["ask_asset_info"] = p.toks[*j].info();
                }
                if *to {
                    m["to"] = json!(CAROL);
                }
                let jj = if p.n() == 2 { Some(1 - i) } else { *j };
                let out = jj.map(|j| self.norm(*i, *v) / 10u128.pow((self.top() - p.dec[j]) as u32)).unwrap_or(0);
                let ok = jj.is_some_and(|j| out > 0 && out <= x[j]);
                if ok {
                    e.mv(usr(*u), &p.addr, p.toks[*i].id(), *v).mv(&p.addr, if *to { CAROL } else { usr(*u) }, p.toks[jj.unwrap()].id(), out);
                }
                (p.swap(&mut n, usr(*u), *i, *v, m), ok, "swap")
            }
            Op::Provide { u, a, to } => {
                let m = if *to { json!({"receiver": CAROL}) } else { json!({}) };
                let mut lp = 0;
                for i in 0..p.n() {
                    lp += self.norm(i, a[i]);
                    e.mv(usr(*u), &p.addr, p.toks[i].id(), a[i]);
                }
                e.add(if *to { CAROL } else { usr(*u) }, &p.lp, lp as i128);
                (p.provide(&mut n, usr(*u), a, m), lp > 0, "provide")
            }
            Op::Withdraw { u, n: a, d } => {
                let lp = p.lp_of(w, usr(*u)) * a / d;
                if lp > 0 {
                    let ratio = mul_div(lp, 10u128.pow(18), supply);
                    for i in 0..p.n() {
                        e.mv(&p.addr, usr(*u), p.toks[i].id(), mul_div(x[i], ratio, 10u128.pow(18)));
                    }
                    e.add(usr(*u), &p.lp, -(lp as i128));
                }
                (p.withdraw(&mut n, usr(*u), lp, json!({})), lp > 0, "withdraw")
            }
            Op::Choose { u, pick, extra } => {
                let mut need = 0;
                let mut assets = vec![];
                let mut each = true;
                let mut sums = vec![0; p.n()];
                for (i, v) in pick {
                    // "all" of the reserve, one more, or a number
                    let v = match v.as_str() {
                        "all" => x[*i],
                        "more" => x[*i] + 1,
                        v => v.parse().unwrap(),
                    };
                    assets.push(p.toks[*i].asset(v));
                    need += self.norm(*i, v);
                    sums[*i] += v;
                    e.mv(&p.addr, usr(*u), p.toks[*i].id(), v);
                }
                for i in 0..p.n() {
                    each &= sums[i] <= x[i];
                }
                e.add(usr(*u), &p.lp, -(need as i128));
                let sent = need as i128 + *extra as i128;
                let ok = each && *extra >= 0 && need > 0 && sent <= p.lp_of(w, usr(*u)) as i128;
                (p.withdraw(&mut n, usr(*u), sent.max(1) as u128, json!({"assets": assets})), ok, "choose")
            }
            Op::Donate { i, v } => {
                p.donate(&mut n, BOB, *i, *v).unwrap();
                return Ok(Some(n));
            }
        };
        cov.hit(&format!("{k}-{}", if r.is_ok() { "ok" } else { "refused" }));
        vensure!(r.is_ok() == ok, "transmute", "{op:?} with reserves {x:?} and {supply} LP: accepted {}, expected {ok} ({:?})", r.is_ok(), r.err());
        if !ok {
            return Ok(None);
        }
        let d = diff(&balances(w), &balances(&n));
        vensure!(d == e.0, "transmute", "{op:?} with reserves {x:?} and {supply} LP changed balances by {d:?} instead of {:?}", e.0);
        Ok(Some(n))
    }
    fn fp(&self, w: &World) -> u128 {
        let mut h = H::new();
        w.fp(&mut h, false);
        h.done()
    }
    fn check(&self, w: &World, _: &mut Cov) -> Result<(), Viol> {
        let p = &self.p;
        let sum: u128 = p.reserves(w).iter().enumerate().map(|(i, x)| self.norm(i, *x)).sum();
        vensure!(p.supply(w) <= sum, "backing", "{} LP tokens against reserves worth {sum}", p.supply(w));
        Ok(())
    }
}
fn pick(u: u8, v: &[(usize, &str)], extra: i8) -> Op {
    Op::Choose { u, pick: v.iter().map(|x| (x.0, x.1.to_string())).collect(), extra }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A12",
        scenarios: |t| {
            let mut v: Vec<Box<dyn Runner>> = vec![];
            for (name, dec, seed) in [
                ("6-6", vec![6u8, 6], vec![1_000u128, 300]),
                ("6-18", vec![6, 18], vec![50, 20_000_000_000_000]),
                ("6-8-6", vec![6, 8, 6], vec![1_000, 70_000, 50]),
                ("18-0-6-8-6", vec![18, 0, 6, 8, 6], vec![3_000_000_000_000_000_000, 4, 5_000_000, 600_000_000, 7]),
            ] {
                let k = dec.len();
                let mut c = Cfg::new(Kind::Trans);
                c.cw20 = vec![false; k];
                c.tax = vec![None; k];
                c.dec = dec.clone();
                c.seed = seed.clone();
                let (w0, p) = build(&c);
                let mut ops = vec![];
                let one: Vec<u128> = dec.iter().map(|d| 10u128.pow((*d).saturating_sub(6) as u32)).collect();
                for i in 0..k {
                    for j in 0..k {
                        if i == j {
                            continue;
                        }
                        let ask = if k == 2 { None } else { Some(j) };
                        // amounts: a unit, an odd amount, the whole other reserve and one unit beyond it
                        let all = seed[j] * 10u128.pow(18) / 10u128.pow(dec[j] as u32) * 10u128.pow(dec[i] as u32) / 10u128.pow(18);
                        let mut sizes = vec![1, one[i] * 7 + 1, all, all + one[i]];
                        if k > 3 {
                            sizes = vec![one[i] + 1, all];
                        }
                        sizes.dedup();
                        for s in sizes.into_iter().filter(|s| *s > 0) {
                            ops.push(Op::Swap { u: 0, i, j: ask, v: s, to: s == 1 });
                        }
                    }
                }
                if k > 2 {
                    ops.push(Op::Swap { u: 0, i: 0, j: None, v: one[0], to: false });
                }
                let a: Vec<u128> = (0..k).map(|i| seed[i] / 3 + i as u128).collect();
                let mut b = vec![0; k];
                b[1] = seed[1] / 2 + 1;
                ops.push(Op::Provide { u: 0, a: a.clone(), to: false });
                ops.push(Op::Provide { u: 1, a: b, to: true });
                ops.push(Op::Provide { u: 1, a: vec![0; k], to: false });
                for u in [0u8, 2] {
                    ops.push(Op::Withdraw { u, n: 1, d: 1 });
                    ops.push(Op::Withdraw { u, n: 1, d: 3 });
                    ops.push(pick(u, &[(1, "1")], 0));
                    ops.push(pick(u, &[(0, "all")], 0));
                    ops.push(pick(u, &[(k - 1, "all"), (0, "2")], 5));
                }
                ops.push(pick(0, &[(1, "2")], -1));
                ops.push(pick(2, &[(1, "more")], 1));
                ops.push(pick(2, &[(0, "all"), (0, "1")], 1));
                ops.push(pick(2, &[(0, "3"), (0, "4")], 1));
                ops.push(Op::Donate { i: 0, v: 1 });
                v.push(bounded(M { name: name.into(), w0, p: Arc::new(p), ops }, if k > 3 { 3 } else { 4 } + t as usize));
            }
            v
        },
        assumptions: &["two, three and five assets with 0 to 18 decimals"],
    }]
}
