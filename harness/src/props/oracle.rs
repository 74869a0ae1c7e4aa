//! I01: the price oracle built on a pool's cumulative prices.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use cosmwasm_std::{Uint256, Uint512};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const PERIOD: u64 = 86_400;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Swap { i: usize, #[serde(with = "s128")] v: u128 },
    Provide { #[serde(with = "v128")] a: Vec<u128> },
    Wait { secs: u64 },
    Update { by: String },
}
#[derive(Clone)]
struct S {
    w: World,
    /// time and cumulative prices at the last update, per asset
    last: (u64, Vec<u128>),
    /// seconds and cumulative price differences between the last two updates
    avg: Option<(u64, Vec<u128>)>,
    /// exact integral of the price (scaled by 10^24) since the last update, per asset
    ghost: Vec<Uint512>,
    gavg: Vec<Uint512>,
}
struct M {
    name: String,
    w0: World,
    p: Pool,
    c: String,
    swaps: Vec<(usize, u128)>,
    waits: Vec<u64>,
    exact: bool,
}
/// exact difference modulo 2^128
fn sub(a: u128, b: u128) -> u128 {
    a.wrapping_sub(b)
}
impl M {
    fn new(name: &str, cfg: Cfg, swaps: Vec<(usize, u128)>, waits: Vec<u64>) -> M {
        let (mut w, p) = build(&cfg);
        let info: Vec<Value> = p.toks.iter().map(|t| t.info()).collect();
        let c = w.init(OWNER, ORACLE, &json!({"factory_contract": p.factory, "asset_infos": info}), &[]).unwrap();
        let exact = matches!(cfg.kind, Kind::Xyk);
        M { name: name.into(), w0: w, p, c, swaps, waits, exact }
    }
    fn cum(&self, w: &World) -> Result<Vec<u128>, String> {
        let r = w.q(&self.p.addr, json!({"cumulative_prices": {}}))?;
        let l = r["cumulative_prices"].as_array().unwrap();
        (0..2).map(|i| l.iter().find(|x| x[0] == self.p.toks[i].info() && x[1] == self.p.toks[1 - i].info()).map(|x| u(&x[2])).ok_or("no price".into())).collect()
    }
    fn consult(&self, w: &World, i: usize, v: u128) -> Result<Uint256, String> {
        let r = w.q(&self.c, json!({"consult": {"token": self.p.toks[i].info(), "amount": v.to_string()}}))?;
        let l = r.as_array().unwrap();
        if l.len() != 1 || l[0][0] != self.p.toks[1 - i].info() {
            return Err(format!("the answer is {r}"));
        }
        Ok(l[0][1].as_str().unwrap().parse().unwrap())
    }
}
const SC: u128 = 1_000_000_000_000_000_000_000_000;
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        let z = vec![Uint512::zero(); 2];
        S { w: self.w0.clone(), last: (self.w0.time, self.cum(&self.w0).unwrap()), avg: None, ghost: z.clone(), gavg: z }
    }
    fn ops(&self, _: &S, _: usize) -> Vec<Op> {
        let mut v: Vec<Op> = self.swaps.iter().map(|(i, a)| Op::Swap { i: *i, v: *a }).collect();
        v.extend(self.waits.iter().map(|s| Op::Wait { secs: *s }));
        v.push(Op::Provide { a: self.p.cfg.seed.iter().enumerate().map(|(i, x)| if i == 0 { x / 2 } else { x / 3 }.max(1)).collect() });
        v.push(Op::Update { by: ALICE.into() });
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        match op {
            Op::Swap { i, v } => match self.p.swap(&mut n.w, ALICE, *i, *v, self.p.wide()) {
                Ok(_) => cov.hit("swap"),
                Err(_) => {
                    cov.hit("swap-refused");
                    return Ok(None);
                }
            },
            Op::Provide { a } => match self.p.provide(&mut n.w, BOB, a, json!({"slippage_tolerance": "0.5"})) {
                Ok(_) => cov.hit("provide"),
                Err(_) => {
                    cov.hit("provide-refused");
                    return Ok(None);
                }
            },
            Op::Wait { secs } => {
                let r = self.p.reserves(&s.w);
                for i in 0..2 {
                    let p = Uint512::from(SC) * Uint512::from(r[1 - i]) * Uint512::from(*secs) / Uint512::from(r[i]);
                    n.ghost[i] += p;
                }
                n.w.advance(*secs, 1);
            }
            Op::Update { by } => {
                let el = s.w.time - s.last.0;
                let r = n.w.exec_json(by, &self.c, json!({"update": {}}), &[]);
                cov.hit(&format!("update-{}", if r.is_ok() { "accepted" } else { "refused" }));
                let cum = self.cum(&s.w);
                if cum.is_err() {
                    cov.hit("pool-overflow");
                    vensure!(r.is_err(), "update", "an update was made without a price");
                    return Ok(None);
                }
                vensure!(r.is_ok() == (el >= PERIOD), "update", "update {el} s after the last one: {:?}", r.err());
                if r.is_err() {
                    return Ok(None);
                }
                let cum = cum?;
                n.avg = Some((el, (0..2).map(|i| sub(cum[i], s.last.1[i])).collect()));
                n.gavg = std::mem::replace(&mut n.ghost, vec![Uint512::zero(); 2]);
                n.last = (s.w.time, cum);
            }
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{:?}{:?}", s.ghost, s.gavg));
        h.str(&format!("{:?}{:?}", s.last, s.avg));
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        for i in 0..2 {
            let one = 10u128.pow(self.p.dec[i] as u32);
            for v in [0, 1, 7, 999_999, one, 123_456_789_012_345_678] {
                let got = self.consult(&s.w, i, v);
                let spot = || -> Result<Uint256, String> { Ok(Uint256::from(self.p.sim(&s.w, i, one, None)?.0).multiply_ratio(Uint256::from(v), Uint256::from(one))) };
                match &s.avg {
                    None => {
                        let want = spot();
                        vensure!(got.is_ok() == want.is_ok() && got.as_ref().ok() == want.as_ref().ok(), "spot", "{v} of asset {i} is worth {got:?}, the pool pays {want:?}");
                        cov.hit("before-first-update");
                    }
                    Some((el, d)) => {
                        let den = Uint512::from(*el) * Uint512::from(1_000_000u128);
                        let want = Uint512::from(v) * Uint512::from(d[i]) / den;
                        if d[i] == 0 {
                            cov.hit("average-of-zero");
                            continue;
                        }
                        let got = got.map_err(|e| Viol { key: "consult".into(), msg: format!("{v} of asset {i}: {e}") })?;
                        let g = Uint512::from(got);
                        vensure!(g <= want && g + Uint512::from(1u128) >= want, "average", "{v} of asset {i} is worth {g}; the average over {el} s gives {want}");
                        cov.hit("average");
                        let fits = s.gavg[i] / Uint512::from(SC / 1_000_000) < Uint512::from(u128::MAX);
                        if self.exact && !fits {
                            cov.hit("beyond-the-counter");
                        } else if self.exact && *el > 0 {
                            // against the integral of the pool's price, known to a millionth of a unit per second
                            let x = Uint512::from(v) * s.gavg[i] / Uint512::from(SC) / Uint512::from(*el);
                            let slack = Uint512::from(v / 1_000_000 + 2);
                            vensure!(g <= x + Uint512::from(v / 1_000_000 / *el as u128 + 2) && g + slack >= x, "integral", "{v} of asset {i} is worth {g}; at the average pool price over {el} s it is {x}");
                            cov.hit("integral");
                        } else if self.p.dec[0] != self.p.dec[1] && v == 123_456_789_012_345_678 && s.w.time == s.last.0 {
                            // right after an update the price is near the spot price
                            let sp = spot()?;
                            let (a, b) = (got.min(sp), got.max(sp));
                            if a * Uint256::from(5u128) < b {
                                // known only as a factor of ten to the difference of the decimals
                                let f = Uint256::from(10u128.pow(self.p.dec[0].abs_diff(self.p.dec[1]) as u32));
                                vensure!(b < a * f * Uint256::from(5u128) && b * Uint256::from(5u128) > a * f, "spot-average", "{v} of asset {i} is worth {got} by the average and {sp} at the spot price");
                                cov.soft("oracle-decimals", format!("{v} of asset {i} is worth {got} by the average and {sp} at the spot price (decimals {:?})", self.p.dec));
                            }
                        }
                    }
                }
            }
        }
        for t in [json!({"native_token": {"denom": "unknown"}}), json!({"token": {"contract_addr": "wasm1unknown"}})] {
            let r = s.w.q(&self.c, json!({"consult": {"token": t, "amount": "5"}}));
            vensure!(r.is_err(), "unknown-token", "{t} is worth {r:?}");
        }
        Ok(())
    }
}
fn cfg(kind: Kind, dec: [u8; 2], seed: [u128; 2]) -> Cfg {
    let mut c = Cfg::new(kind);
    c.dec = dec.to_vec();
    c.seed = seed.to_vec();
    c
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "I01",
        scenarios: |t| {
            let d = if t { 7 } else { 5 };
            let wv = vec![1, PERIOD - 1, PERIOD, 3 * PERIOD + 5];
            let mut cw = cfg(Kind::Xyk, [6, 8], [7_000_000, 9_000_000_000]);
            cw.cw20 = vec![true, false];
            let mut pcl = cfg(Kind::Pcl, [6, 6], [2_000_000_000, 1_000_000_000]);
            pcl.pcl.price_scale = "2".into();
            vec![
                bounded(M::new("I01:xyk", cfg(Kind::Xyk, [6, 6], [1_000_000, 3_000_000]), vec![(0, 250_000), (1, 1_000_003)], wv.clone()), d),
                bounded(M::new("I01:cw20", cw, vec![(0, 1_000_000), (1, 77)], wv.clone()), d - 1),
                bounded(M::new("I01:wrapping", cfg(Kind::Xyk, [6, 6], [1000, 1 << 99]), vec![(1, 1 << 98)], vec![PERIOD, 3 * PERIOD]), d + 2),
                bounded(M::new("I01:stable", cfg(Kind::Stable, [6, 6], [5_000_000_000, 6_000_000_000]), vec![(0, 900_000_000)], wv.clone()), d - 1),
                bounded(M::new("I01:concentrated", pcl, vec![(0, 90_000_000)], wv.clone()), d - 1),
                bounded(M::new("I01:stable-decimals", cfg(Kind::Stable, [6, 8], [5_000_000_000, 600_000_000_000]), vec![(0, 900_000_000)], vec![PERIOD]), d - 1),
            ]
        },
        assumptions: &["the pool's cumulative prices are those of property A07"],
    }]
}
