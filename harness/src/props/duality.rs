//! L01-L03: the concentrated pool that places part of its liquidity in the chain's order book.
use super::a01::vps;
use crate::curve::*;
use crate::dex::*;
use crate::engine::*;
use crate::pm::{mul_div, pcl_below_tolerance, pcl_price, pcl_state, user, xs};
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use cosmwasm_std::Uint256;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

pub const EXECUTOR: &str = "wasm1syncexecutor";
pub const TAKER: &str = "wasm1taker";
pub const MM: &str = "wasm1marketmaker";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Provide { u: u8, #[serde(with = "v128")] a: Vec<u128> },
    Withdraw { u: u8, n: u32, d: u32 },
    Swap { i: usize, #[serde(with = "s128")] v: u128 },
    Donate { i: usize, #[serde(with = "s128")] v: u128 },
    /// a taker buys token `i` from the best order of the pool that still has some: num/den of it, 0/x = one unit
    Fill { i: usize, n: u32, d: u32 },
    /// a taker buys everything the pool sells of token `i`
    Sweep { i: usize },
    /// a market maker offers `v` of token `i`, `bps` worse for the taker than the pool's last price
    Rest { i: usize, bps: i32, #[serde(with = "s128")] v: u128 },
    MmCancel,
    Sync { who: String },
    Book { who: String, p: Value },
    Params { p: Value },
    Wait { s: u64 },
}
/// what the pool sold and received through the order book since it last accounted for it, per token sold
pub type Pending = [(u128, u128); 2];
#[derive(Clone)]
pub struct DS {
    pub w: World,
    pub seen: [(u128, u128); 2],
    pub enabled: bool,
    /// the order book's settings
    pub conf: Value,
    /// what was traded the moment the pool's orders were placed (the module keeps no record of it)
    pub crossed: Pending,
    /// price scale and value of an LP token after the last accounting
    pub base: (u128, Dd),
}
pub struct DM {
    pub name: String,
    pub w0: World,
    pub p: Arc<Pool>,
    pub alphabet: Vec<Op>,
    pub what: u8,
    pub conf: Value,
}
fn book(n: u8, pct: &str, adj: &str, min: [u128; 2]) -> Value {
    json!({"executor": EXECUTOR, "orders_number": n, "liquidity_percent": pct, "avg_price_adjustment": adj,
        "min_asset_0_order_size": min[0].to_string(), "min_asset_1_order_size": min[1].to_string()})
}
pub fn upd(m: Value) -> Value {
    json!({"custom": {"update_orderbook_config": m}})
}
impl DM {
    pub fn new(name: &str, cfg: Cfg, enabled: bool, omit_zero: bool, alphabet: Vec<Op>, what: u8) -> DM {
        let (mut w, p) = build(&cfg);
        for t in &p.toks {
            w.fund(TAKER, t.id(), 1 << 100);
            w.fund(MM, t.id(), 1 << 100);
        }
        Arc::make_mut(&mut w.dex).omit_zero = omit_zero;
        if enabled {
            w.exec_json(OWNER, &p.addr, upd(json!({"enable": true})), &[]).unwrap();
            // the next operation places the orders
            let u: Vec<u128> = p.dec.iter().map(|d| 10u128.pow(*d as u32)).collect();
            p.swap(&mut w, BOB, 0, u[0], json!({"max_spread": "0.5"})).unwrap();
        }
        w.advance(10, 1);
        DM { name: name.into(), w0: w, p: Arc::new(p), alphabet, what, conf: cfg.book.clone().unwrap() }
    }
    fn total(&self, w: &World) -> [(u128, u128); 2] {
        let g = |i: usize| w.dex.sold.get(&(self.p.addr.clone(), self.p.toks[i].id().to_string())).copied().unwrap_or_default();
        [g(0), g(1)]
    }
    fn pending(&self, s: &DS) -> Pending {
        let t = self.total(&s.w);
        [(t[0].0 - s.seen[0].0, t[0].1 - s.seen[0].1), (t[1].0 - s.seen[1].0, t[1].1 - s.seen[1].1)]
    }
    fn side(&self, w: &World, i: usize) -> Vec<(String, Order)> {
        let mut v: Vec<_> = w.dex_orders(&self.p.addr).into_iter().filter(|(_, o)| o.tin == self.p.toks[i].id()).collect();
        v.sort_by_key(|(_, o)| o.price);
        v
    }
    pub fn apply(&self, w: &World, op: &Op) -> (Result<Tx, String>, World) {
        let mut n = w.clone();
        let p = &self.p;
        let none = |_: u128| Tx::default();
        let r = match op {
            Op::Provide { u, a } => p.provide(&mut n, user(*u), a, json!({})),
            Op::Withdraw { u, n: k, d } => {
                let lp = mul_div(p.lp_of(w, user(*u)), *k as u128, *d as u128);
                p.withdraw(&mut n, user(*u), lp, json!({}))
            }
            Op::Swap { i, v } => p.swap(&mut n, ALICE, *i, *v, json!({"max_spread": "0.5"})),
            Op::Donate { i, v } => p.donate(&mut n, BOB, *i, *v).map(|_| Tx::default()),
            Op::Fill { i, n: k, d } => match self.side(w, *i).into_iter().find(|(_, o)| o.left > 0) {
                Some((key, o)) => n.dex_fill(&key, TAKER, if *k == 0 { 1 } else { mul_div(o.left, *k as u128, *d as u128) }).map(none),
                None => Err("nothing to take".into()),
            },
            Op::Sweep { i } => {
                let mut r = Err("nothing to take".to_string());
                for (key, o) in self.side(w, *i) {
                    if o.left > 0 {
                        r = n.dex_fill(&key, TAKER, o.left).map(none);
                    }
                }
                r
            }
            Op::Rest { i, bps, v } => {
                // token 0 per token 1, in smallest units
                let last = pcl_price(p, w, "last_price").to() * 10f64.powi(p.dec[0] as i32 - p.dec[1] as i32);
                let x = if *i == 0 { 1.0 / last } else { last } * (1.0 + *bps as f64 / 1e4);
                let price = Uint256::from((x * 1e18) as u128) * Uint256::from(1_000_000_000u128);
                n.dex_place(MM, p.toks[*i].id(), p.toks[1 - *i].id(), *v, &price.to_string()).map(|_| Tx::default())
            }
            Op::MmCancel => {
                let o = n.dex_orders(MM);
                if o.is_empty() {
                    Err("nothing to cancel".into())
                } else {
                    o.iter().try_for_each(|(k, _)| n.dex_cancel(MM, k)).map(|_| Tx::default())
                }
            }
            Op::Sync { who } => n.exec_json(who, &p.addr, json!({"custom": {"sync_orderbook": {}}}), &[]),
            Op::Book { who, p: m } => n.exec_json(who, &p.addr, upd(m.clone()), &[]),
            Op::Params { p: m } => p.update(&mut n, OWNER, m.clone()),
            Op::Wait { s } => {
                n.advance(*s, 1);
                Ok(Tx::default())
            }
        };
        if r.is_ok() && !matches!(op, Op::Wait { .. }) {
            n.advance(10, 1);
        }
        (r, n)
    }
    fn value(&self, w: &World) -> (u128, Dd) {
        (pcl_state(&self.p, w).scale_s.parse::<cosmwasm_std::Decimal256>().map(|x| x.atomics().to_string().parse().unwrap_or(1)).unwrap_or(1), vps(&self.p, w))
    }
    /// the world with everything accounted for
    fn settled(&self, s: &DS) -> Result<World, Viol> {
        let pend = self.pending(s);
        let mut n = s.w.clone();
        let r = n.exec_json(EXECUTOR, &self.p.addr, json!({"custom": {"sync_orderbook": {}}}), &[]);
        if let Err(e) = &r {
            let known = pend.iter().any(|x| x.1 > 0);
            vensure!(!known || !self.traces(s), "stuck", "trades {pend:?} in the order book cannot be accounted for: {e}");
        }
        Ok(n)
    }
    /// can the pool see that something was traded?
    fn traces(&self, s: &DS) -> bool {
        (0..2).any(|i| self.side(&s.w, i).iter().any(|(_, o)| o.out > 0))
    }
}
fn settles(op: &Op) -> bool {
    matches!(op, Op::Provide { .. } | Op::Withdraw { .. } | Op::Swap { .. } | Op::Sync { .. })
}
impl Model for DM {
    type S = DS;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> DS {
        let mut s = DS { seen: self.total(&self.w0), w: self.w0.clone(), enabled: self.name.contains("on"), conf: self.conf.clone(), crossed: Default::default(), base: (0, Dd::ZERO) };
        if self.what == 2 && self.p.supply(&s.w) > 0 {
            s.base = self.value(&s.w);
        }
        s
    }
    fn ops(&self, _: &DS, _: usize) -> Vec<Op> {
        self.alphabet.clone()
    }
    fn step(&self, s: &DS, op: &Op, cov: &mut Cov) -> Result<Option<DS>, Viol> {
        let (r, n) = self.apply(&s.w, op);
        let name = format!("{op:?}");
        cov.hit(&format!("{}-{}", name.split([' ', '{']).next().unwrap(), if r.is_ok() { "ok" } else { "refused" }));
        if std::env::var("MC_ERR").is_ok() {
            if let Err(e) = &r {
                cov.hit(&format!("err:{e}").chars().filter(|c| !c.is_ascii_digit()).take(90).collect::<String>());
            }
        }
        let mut t = DS { w: n, seen: s.seen, enabled: s.enabled, conf: s.conf.clone(), crossed: s.crossed, base: s.base };
        if r.is_ok() && (settles(op) || matches!(op, Op::Book { p, .. } if p["enable"] == false)) {
            // what was traded before this operation is accounted for by it
            t.seen = self.total(&s.w);
            t.crossed = self.pending(&t);
        }
        if let (Ok(_), Op::Book { p, .. }) = (&r, op) {
            if let Some(e) = p["enable"].as_bool() {
                t.enabled = e;
            }
            for (k, v) in p.as_object().unwrap() {
                t.conf[k] = v.clone();
            }
        }
        match self.what {
            1 => self.own(s, op, &r, &t, cov)?,
            2 => self.accounted(s, op, &r, &mut t, cov)?,
            _ => self.priced(s, op, &r, &t, cov)?,
        }
        Ok(r.is_ok().then_some(t))
    }
    fn fp(&self, s: &DS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.u64(s.enabled as u64);
        h.str(&s.conf.to_string());
        for x in self.pending(s).into_iter().chain(s.crossed) {
            h.u128(x.0);
            h.u128(x.1);
        }
        h.u128(s.base.0);
        h.u64(s.base.1.to().to_bits());
        h.done()
    }
    fn check(&self, s: &DS, cov: &mut Cov) -> Result<(), Viol> {
        if self.what == 1 {
            self.reachable(s, cov)?;
        }
        Ok(())
    }
}
impl DM {
    /// L01: the liquidity in the order book stays the pool's, and is never out of reach
    fn own(&self, s: &DS, op: &Op, r: &Result<Tx, String>, t: &DS, _: &mut Cov) -> Result<(), Viol> {
        let p = &self.p;
        match op {
            Op::Sync { who } if who != EXECUTOR => vensure!(r.is_err(), "sync", "{who} may synchronise although the executor is set"),
            Op::Book { who, .. } if who != OWNER => vensure!(r.is_err(), "config", "{who} may change the order book's settings"),
            Op::Book { p: m, .. } if m["enable"] == false && m.as_object().unwrap().len() == 1 => {
                vensure!(r.is_ok(), "stuck", "the order book cannot be switched off: {:?}", r.as_ref().err());
            }
            _ => {}
        }
        if r.is_err() {
            return Ok(());
        }
        if !t.enabled {
            vensure!(t.w.dex_orders(&p.addr).is_empty(), "orders-left", "order book switched off, yet orders {:?} remain after {op:?}", t.w.dex_orders(&p.addr));
        }
        if matches!(op, Op::Book { .. } | Op::Wait { .. }) {
            let (a, b) = (p.reported(&s.w), p.reported(&t.w));
            vensure!(a == b, "reserves", "{op:?} changed the reserves from {a:?} to {b:?}");
        }
        Ok(())
    }
    fn reachable(&self, s: &DS, cov: &mut Cov) -> Result<(), Viol> {
        let (p, w) = (&self.p, &s.w);
        let mine = w.dex_orders(&p.addr);
        let pool = w.q(&p.addr, json!({"pool": {}}));
        vensure!(pool.is_ok(), "stuck", "the reserves cannot be read: {:?}", pool.err());
        let rep = p.reported(w);
        for i in 0..2 {
            let d = p.toks[i].id();
            let inb: u128 = mine.iter().map(|(_, o)| if o.tin == d { o.left } else { o.out }).sum();
            let have = w.bal(&p.addr, d) + inb;
            vensure!(rep[i] == have, "reserves", "pool holds {} and its orders {inb} of {d}, reported {}", w.bal(&p.addr, d), rep[i]);
        }
        // everybody can leave
        for u in 0..3u8 {
            let lp = p.lp_of(w, user(u));
            let least = rep.iter().map(|x| mul_div(*x, lp - lp.min(1), p.supply(w))).min().unwrap();
            if least < 2 {
                continue;
            }
            let share = p.w_q(w, json!({"share": {"amount": lp.to_string()}}));
            let mut n = w.clone();
            let r = p.withdraw(&mut n, user(u), lp, json!({}));
            vensure!(r.is_ok(), "stuck", "{} cannot withdraw {lp} LP: {:?}", user(u), r.err());
            let got: Vec<u128> = p.toks.iter().map(|t| t.bal(&n, user(u)) - t.bal(w, user(u))).collect();
            let share = share?;
            let share: Vec<u128> = share.as_array().unwrap().iter().map(|a| a["amount"].as_str().unwrap().parse().unwrap()).collect();
            vensure!(got == share, "withdraw-sim", "share of {lp} LP predicted {share:?}, paid {got:?}");
            cov.hit("left");
        }
        // and the owner can take everything back
        let mut n = w.clone();
        let r = n.exec_json(OWNER, &p.addr, upd(json!({"enable": false})), &[]);
        vensure!(r.is_ok(), "stuck", "the order book cannot be switched off: {:?}", r.err());
        vensure!(n.dex_orders(&p.addr).is_empty(), "orders-left", "orders remain after switching off: {:?}", n.dex_orders(&p.addr));
        for i in 0..2 {
            let (d, b) = (p.toks[i].id(), n.bal(&p.addr, p.toks[i].id()));
            vensure!(b == rep[i], "reserves", "switching off leaves the pool with {b} of {d} instead of {}", rep[i]);
        }
        // swaps work, as quoted
        for i in (0..2).filter(|_| !pcl_below_tolerance(p, w)) {
            for v in [rep[i] / 1000 + 1, rep[i] / 17 + 1] {
                let q = p.sim(w, i, v, None);
                let mut n = w.clone();
                let x = p.swap(&mut n, ALICE, i, v, json!({"max_spread": "0.5"}));
                match (&q, &x) {
                    (Ok(q), Ok(_)) => {
                        let got = p.toks[1 - i].bal(&n, ALICE) - p.toks[1 - i].bal(w, ALICE);
                        vensure!(got == q.0, "swap-sim", "offer {v} of {i}: simulated {}, received {got}", q.0);
                        cov.hit("swap-agrees");
                    }
                    (Ok(q), Err(e)) => {
                        vensure!(q.0 == 0 || q.1 > q.0 / 3, "stuck", "offer {v} of {i}: simulated {q:?}, refused: {e}")
                    }
                    (Err(e), Ok(_)) => vensure!(false, "swap-sim", "offer {v} of {i}: not quoted ({e}), executed"),
                    (Err(e), Err(_)) => {
                        vensure!(false, "stuck", "offer {v} of {i}: {e}");
                    }
                }
            }
        }
        if self.pending(s).iter().any(|x| x.1 > 0) {
            cov.hit("trades-pending");
        }
        Ok(())
    }
    /// L02: trades in the order book are accounted for
    fn accounted(&self, s: &DS, op: &Op, r: &Result<Tx, String>, t: &mut DS, cov: &mut Cov) -> Result<(), Viol> {
        let p = &self.p;
        if r.is_err() {
            if let Op::Sync { who } = op {
                vensure!(who != EXECUTOR || !self.traces(s), "stuck", "trades {:?} cannot be accounted for: {:?}", self.pending(s), r.as_ref().err());
            }
            return Ok(());
        }
        // the value of an LP token, with everything accounted for, never falls below what it was when the orders were placed
        // (an order sells at one price, so that taking half of it leaves the pool better off than taking all of it)
        let (w, n) = (&s.w, &t.w);
        if p.supply(n) == 0 {
            t.base = (0, Dd::ZERO);
        } else {
            let b = self.settled(t)?;
            let (scale, y) = self.value(&b);
            let x = s.base.1;
            let rb = p.reported(&b);
            if s.base.0 == scale {
                let ra = p.reported(w);
                let tol = (0..2).fold(Dd::f(1e-12), |t, i| t + Dd::f(8.0) / Dd::u(ra[i].min(rb[i]))) * x;
                let key = if pcl_below_tolerance(p, w) || pcl_below_tolerance(p, &b) { "pcl-absolute-tolerance" } else { "diluted" };
                vensure!(y >= x - tol, key, "{op:?}: value per share fell from {} to {} (reserves {ra:?} {rb:?} supply {} {}, scale {scale})", x.to(), y.to(), p.supply(w), p.supply(&b));
                cov.hit("value-compared");
            } else if s.base.0 > 0 {
                let (real, profit) = (pcl_price(p, &b, "xcp_profit_real"), pcl_price(p, &b, "xcp_profit"));
                vensure!(Dd::f(2.0) * real > profit + Dd::ONE - Dd::f(1e-9), "diluted", "{op:?}: a move of the price scale left a virtual price of {} with profit {}", real.to(), profit.to());
                vensure!(self.name.contains("makers") || (y / real - Dd::ONE).abs().to() < 1e-6 + 8.0 / rb[0].min(rb[1]) as f64, "virtual-price", "{op:?}: virtual price recorded as {} instead of {}", real.to(), y.to());
                cov.hit("repeg");
            }
            if settles(op) {
                t.base = if t.crossed == Pending::default() { self.value(n) } else { (0, Dd::ZERO) };
            }
        }
        let n = &t.w;
        if !settles(op) {
            return Ok(());
        }
        // fees on what was sold, at the pool's highest rate
        let pend = self.pending(s);
        let tx = r.as_ref().unwrap();
        let own = if matches!(op, Op::Swap { .. }) { (tx.attr_u(&p.addr, "maker_fee_amount").unwrap_or(0), tx.attr_u(&p.addr, "fee_share_amount").unwrap_or(0)) } else { (0, 0) };
        let out = pcl_state(p, w).out;
        for i in 0..2 {
            let d = p.toks[i].id();
            let due = |sold: u128| {
                let fee = out * Dd::u(sold);
                let share = fee * Dd::u(p.cfg.share as u128) / Dd::f(10_000.0);
                (if p.cfg.fee_addr { (fee - share) * Dd::u(p.cfg.maker as u128) / Dd::f(10_000.0) } else { Dd::ZERO }.to(), share.to())
            };
            let most = if pend[i].1 > 0 { pend[i].0 } else { 0 };
            let least = if pend[i].1 > s.crossed[i].1 { pend[i].0 - s.crossed[i].0 } else { 0 };
            let ((m1, s1), (m0, s0)) = (due(most), due(least));
            for (who, lo, hi, o) in [(FEE, m0, m1, own.0), (SHARE, s0, s1, own.1)] {
                let swapped = matches!(op, Op::Swap { i: k, .. } if *k != i);
                let got = n.bal(who, d) - w.bal(who, d) - if swapped { o } else { 0 };
                vensure!(got as f64 <= hi + 1e-6 * hi + 1.0 && got as f64 + 1.0 + 1e-6 * lo >= lo, "fee", "{op:?} after sales {pend:?}: {who} receives {got} of {d}, due {lo} to {hi}");
            }
        }
        if pend.iter().any(|x| x.1 > 0) {
            cov.hit("fees-paid");
        }
        // the price the pool learns is one at which it traded
        let one = Dd::ONE;
        let min = Dd::f(1e-3);
        if let Op::Sync { .. } = op {
            // token 0 per token 1
            let mut prices = vec![];
            for i in (0..2).filter(|i| pend[*i].1 > 0) {
                let (sold, got) = (Dd::units(pend[i].0, p.dec[i]), Dd::units(pend[i].1, p.dec[1 - i]));
                prices.push((sold > min && got > min, if i == 0 { sold / got } else { got / sold }));
            }
            if s.crossed == Pending::default() && !prices.is_empty() && prices.iter().all(|x| x.0) {
                let last = pcl_price(p, n, "last_price");
                let lo = prices.iter().map(|x| x.1).fold(prices[0].1, |a, b| if b < a { b } else { a });
                let hi = prices.iter().map(|x| x.1).fold(prices[0].1, |a, b| if b > a { b } else { a });
                vensure!(last > lo * Dd::f(0.999) && last < hi * Dd::f(1.001), "price", "traded {pend:?} between {} and {}: price recorded as {}", lo.to(), hi.to(), last.to());
                cov.hit(&format!("price-learned-{}", prices.len()));
            }
        }
        // the same as accounting first and then doing it
        if pend.iter().any(|x| x.1 > 0) && self.traces(s) && !matches!(op, Op::Sync { .. }) && w.dex_orders(MM).is_empty() {
            let a = self.settled(s)?;
            let (r2, b) = self.apply(&a, op);
            vensure!(r2.is_ok(), "order", "{op:?} works, but not after synchronisation: {:?}", r2.err());
            let (x, y) = (p.reported(n), p.reported(&b));
            // a unit of either asset more or less
            let unit = p.reported(w).iter().chain(&p.reported(&a)).fold(1_000_000_000, |m, x| m.min(x / 8)).max(1);
            let near = |a: u128, b: u128, v: u128| a.abs_diff(b) <= 2 + v / unit;
            vensure!((0..2).all(|i| near(x[i], y[i], x[i])) && near(p.supply(n), p.supply(&b), p.supply(n)), "order", "{op:?}: reserves {x:?} supply {} at once, {y:?} supply {} after synchronisation", p.supply(n), p.supply(&b));
            for who in [ALICE, BOB, SEED, FEE, SHARE] {
                for t in &p.toks {
                    let (g, h) = (t.bal(n, who), t.bal(&b, who));
                    vensure!(near(g, h, x[0].max(x[1])), "order", "{op:?}: {who} has {g} of {} at once, {h} after synchronisation", t.id());
                }
            }
            for k in ["last_price", "price_scale", "oracle_price"] {
                let (g, h) = (pcl_price(p, n, k), pcl_price(p, &b, k));
                vensure!((g / h - one).abs().to() < 1e-6 + 1.0 / unit as f64, "order", "{op:?}: {k} {} at once, {} after synchronisation", g.to(), h.to());
            }
            cov.hit("same-as-synchronised");
        }
        Ok(())
    }
    /// L03: orders as configured, never cheaper than the pool itself
    fn priced(&self, s: &DS, op: &Op, r: &Result<Tx, String>, t: &DS, cov: &mut Cov) -> Result<(), Viol> {
        let p = &self.p;
        if r.is_err() {
            return Ok(());
        }
        let n = &t.w;
        if !settles(op) {
            return Ok(());
        }
        let c = &t.conf;
        let num = c["orders_number"].as_u64().unwrap() as u128;
        let pct = Dd::dec(c["liquidity_percent"].as_str().unwrap());
        let adj = Dd::dec(c["avg_price_adjustment"].as_str().unwrap());
        let mins: Vec<u128> = (0..2).map(|i| c[format!("min_asset_{i}_order_size")].as_str().unwrap().parse().unwrap()).collect();
        let auto = self.pending(t).iter().any(|x| x.0 > 0);
        let rep = p.reported(n);
        let orders: Vec<Vec<(String, Order)>> = (0..2).map(|i| self.side(n, i)).collect();
        if !t.enabled {
            vensure!(orders.iter().all(|o| o.is_empty()), "orders", "orders while switched off");
            return Ok(());
        }
        let size: Vec<Dd> = (0..2).map(|i| Dd::u(rep[i]) * pct / Dd::f(2.0) / Dd::u(num)).collect();
        let big = (0..2).all(|i| size[i] > Dd::u(mins[i]) + Dd::f(2.0));
        let small = (0..2).any(|i| size[i] < Dd::u(mins[i]) - Dd::f(2.0));
        if small && !auto {
            vensure!(orders.iter().all(|o| o.is_empty()), "orders", "orders of {:?} although the minimum is {mins:?}", size.iter().map(|x| x.to()).collect::<Vec<_>>());
            cov.hit("too-small");
            return Ok(());
        }
        if auto {
            cov.hit("executed-when-placed");
            return Ok(());
        }
        if orders.iter().all(|o| o.is_empty()) {
            vensure!(!big, "orders", "no orders placed by {op:?}, sizes {:?}, minimum {mins:?}", size.iter().map(|x| x.to()).collect::<Vec<_>>());
            return Ok(());
        }
        let st = pcl_state(p, n);
        for i in 0..2 {
            let o = &orders[i];
            vensure!(o.len() as u128 == num, "orders", "{} orders of {} instead of {num}", o.len(), p.toks[i].id());
            let mut cost = 0u128;
            let unit = 10f64.powi(p.dec[1 - i] as i32 - p.dec[i] as i32);
            for (k, (_, o)) in o.iter().enumerate() {
                vensure!((Dd::u(o.size) - size[i]).abs() < Dd::f(1.5) + size[i] * Dd::f(1e-9), "size", "order of {} instead of {}", o.size, size[i].to());
                vensure!(o.size + 2 > mins[i], "size", "order of {} below the minimum {}", o.size, mins[i]);
                cost += o.cost(o.size).map_err(|e| Viol { key: "other".into(), msg: e })?;
                let sold = o.size * (k as u128 + 1);
                // cheaper than the pool?
                let q = p.sim(n, 1 - i, cost, None);
                if let Ok(q) = q {
                    vensure!(q.0 + 2 >= sold, "cheap", "the first {} orders sell {sold} of {} for {cost}; the pool pays only {}", k + 1, p.toks[i].id(), q.0);
                }
                // exactly the curve at the highest fee, plus the adjustment
                let x = xs(p, n);
                let (a, b) = (x[0], x[1] * st.scale);
                let d = crypto_d(st.amp, st.gamma, a, b);
                let ask = Dd::units(o.size, p.dec[i]) * Dd::u(k as u128 + 1) / (Dd::ONE - st.out);
                let offer = if i == 0 { (crypto_y(st.amp, st.gamma, d, a - ask) - b) / st.scale } else { crypto_y(st.amp, st.gamma, d, b - ask * st.scale) - a };
                let want = offer * (Dd::ONE + adj) * Dd::f(10f64.powi(p.dec[1 - i] as i32));
                let rel = (Dd::u(cost) / want - Dd::ONE).abs().to();
                // the contract's solver stops at 1e-5 of a token
                let tol = 1e-6 + (k as f64 + 3.0) / cost as f64 + 3.0 / o.size as f64 + 2e-5 / want.to() * 10f64.powi(p.dec[1 - i] as i32);
                let key = if pcl_below_tolerance(p, n) { "pcl-absolute-tolerance" } else { "price" };
                vensure!(rel < tol, key, "the first {} orders sell {sold} of {} for {cost} instead of {} ({unit})", k + 1, p.toks[i].id(), want.to());
            }
            cov.hit("orders-priced");
        }
        let _ = s;
        Ok(())
    }
}
pub(super) fn pool_cfg(dec: [u8; 2], whole: u128, n: u8, pct: &str, min: u128) -> Cfg {
    let u = [10u128.pow(dec[0] as u32), 10u128.pow(dec[1] as u32)];
    let mut c = Cfg::new(Kind::Pcl);
    c.dec = dec.to_vec();
    c.seed = vec![2 * whole * u[0], whole * u[1]];
    c.book = Some(book(n, pct, "0.001", [min * u[0] / 1000, min * u[1] / 1000]));
    c
}
fn alphabet(c: &Cfg, whole: u128, mm: bool) -> Vec<Op> {
    let u = [10u128.pow(c.dec[0] as u32), 10u128.pow(c.dec[1] as u32)];
    let k = |i: usize, x: u128| x * whole * u[i] / 1000;
    let mut v = vec![
        Op::Provide { u: 0, a: vec![k(0, 20), k(1, 10)] },
        Op::Provide { u: 1, a: vec![k(0, 300), k(1, 7)] },
        Op::Withdraw { u: 0, n: 1, d: 1 },
        Op::Withdraw { u: 2, n: 1, d: 3 },
        Op::Withdraw { u: 2, n: 999, d: 1000 },
        Op::Swap { i: 0, v: k(0, 123) },
        Op::Swap { i: 1, v: k(1, 61) },
        Op::Swap { i: 1, v: k(1, 1) },
        Op::Fill { i: 0, n: 0, d: 1 },
        Op::Fill { i: 0, n: 1, d: 1 },
        Op::Fill { i: 0, n: 1, d: 2 },
        Op::Fill { i: 1, n: 1, d: 1 },
        Op::Fill { i: 1, n: 2, d: 3 },
        Op::Sweep { i: 0 },
        Op::Sweep { i: 1 },
        Op::Sync { who: EXECUTOR.into() },
        Op::Book { who: OWNER.into(), p: json!({"enable": false}) },
        Op::Book { who: OWNER.into(), p: json!({"enable": true}) },
    ];
    if mm {
        v.extend([
            Op::Rest { i: 0, bps: -10, v: k(0, 900) },
            Op::Rest { i: 0, bps: 30, v: k(0, 25) },
            Op::Rest { i: 1, bps: -10, v: k(1, 900) },
            Op::Rest { i: 1, bps: 40, v: k(1, 80) },
            Op::MmCancel,
        ]);
    } else {
        v.extend([
            Op::Donate { i: 0, v: k(0, 50) },
            Op::Sync { who: ALICE.into() },
            Op::Book { who: ALICE.into(), p: json!({"enable": false}) },
            Op::Book { who: OWNER.into(), p: json!({"orders_number": 1, "liquidity_percent": "0.5"}) },
            Op::Book { who: OWNER.into(), p: json!({"min_asset_1_order_size": k(1, 200).to_string()}) },
            Op::Wait { s: 400 },
        ]);
    }
    v
}
fn scenarios(what: u8, t: bool) -> Vec<Box<dyn Runner>> {
    let mut v: Vec<Box<dyn Runner>> = vec![];
    let d = if what == 3 { 3 } else { 3 } + t as usize;
    for (name, dec, whole, n, pct, share, omit) in [("6-6", [6u8, 6u8], 1000u128, 2u8, "0.2", 0u16, true), ("6-18", [6, 18], 100_000, 5, "0.5", 1000, false)] {
        let mut c = pool_cfg(dec, whole, n, pct, 1000);
        c.share = share;
        if what == 3 {
            c.pcl.threshold = "0.01".into();
        }
        v.push(bounded(DM::new(&format!("on-{name}"), c.clone(), true, omit, alphabet(&c, whole, false), what), d));
        v.push(bounded(DM::new(&format!("on-{name}-makers"), c.clone(), true, omit, alphabet(&c, whole, true), what), d));
        let mut al = alphabet(&c, whole, false);
        al.push(Op::Provide { u: 2, a: c.seed.clone() });
        v.push(bounded(DM::new(&format!("off-{name}"), c.clone(), false, omit, al, what), d));
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "L01", scenarios: |t| scenarios(1, t), assumptions: ASSUME },
        Prop { id: "L02", scenarios: |t| scenarios(2, t), assumptions: ASSUME },
        Prop { id: "L03", scenarios: |t| scenarios(3, t), assumptions: ASSUME },
    ]
}
const ASSUME: &[&str] = &["the order-book module of the chain is a stand-in (harness/src/dex.rs): exact prices instead of ticks, orders are taken at their own price, an order that is filled when placed leaves no record"];
