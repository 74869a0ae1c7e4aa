//! A11: sale tax.
use super::ops::swap_out;
use crate::engine::*;
use crate::pm::mul_div;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use cosmwasm_std::Uint256;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

const REC2: &str = "wasm1taxrecipient2";
const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Sell { i: usize, #[serde(with = "s128")] v: u128, to: bool },
    Provide,
    Withdraw,
    /// tax settings: (asset, rate, recipient); None leaves that part out
    Set { who: String, tax: Option<Vec<(u8, String, String)>>, admin: Option<String> },
}
#[derive(Clone, Serialize)]
struct Ref {
    tax: BTreeMap<u8, (String, String)>,
    admin: String,
}
#[derive(Clone)]
struct S {
    w: World,
    r: Ref,
}
struct M {
    name: String,
    w0: World,
    p: Arc<Pool>,
    ops: Vec<Op>,
}
pub fn dec_raw(s: &str) -> u128 {
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    i.parse::<u128>().unwrap() * E18 + format!("{f:0<18}").parse::<u128>().unwrap()
}
impl M {
    fn denom(&self, k: u8) -> String {
        match k {
            9 => "uother".into(),
            k => self.p.toks[k as usize].id().to_string(),
        }
    }
    fn tax_on(&self, r: &Ref, i: usize, v: u128) -> (u128, String) {
        match r.tax.get(&(i as u8)) {
            Some((rate, rec)) => (mul_div(v, dec_raw(rate), E18), rec.clone()),
            None => (0, TAXR.into()),
        }
    }
}
/// constant product output of `v` offered to reserves (x, y), the quotient having 18 decimals
pub fn xyk_gross(x: u128, y: u128, v: u128) -> u128 {
    let e = Uint256::from(E18);
    let q = Uint256::from(x) * Uint256::from(y) * e / (Uint256::from(x) + Uint256::from(v));
    let g = (Uint256::from(y) * e - q) / e;
    cosmwasm_std::Uint128::try_from(g).unwrap().u128()
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        let tax = self.p.cfg.tax.iter().enumerate().filter_map(|(i, r)| r.clone().map(|r| (i as u8, (r, TAXR.to_string())))).collect();
        S { w: self.w0.clone(), r: Ref { tax, admin: TAXADM.into() } }
    }
    fn ops(&self, _: &S, _: usize) -> Vec<Op> {
        self.ops.clone()
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let p = &self.p;
        let mut n = s.clone();
        let (r, k) = match op {
            Op::Sell { i, v, to } => {
                let mut e = json!({"max_spread": "0.5"});
                if *to {
                    e["to"] = json!(CAROL);
                }
                let x = p.reserves(&s.w);
                let (tax, rec) = self.tax_on(&s.r, *i, *v);
                let sim = p.sim(&s.w, *i, *v, None);
                let r = p.swap(&mut n.w, ALICE, *i, *v, e);
                if let Ok(tx) = &r {
                    let o = swap_out(p, tx);
                    vensure!(o.tax == tax, "sale-tax", "selling {v} of asset {i} announced a tax of {} instead of {tax}", o.tax);
                    let gross = xyk_gross(x[*i], x[1 - i], v - tax);
                    vensure!(o.ret + o.comm == gross, "sale-tax", "selling {v} of asset {i} (tax {tax}) gave {} before fees instead of {gross}", o.ret + o.comm);
                    let mut e = Exp::default();
                    let (a, b) = (p.toks[*i].id(), p.toks[1 - i].id());
                    e.mv(ALICE, &p.addr, a, *v).mv(&p.addr, if *to { CAROL } else { ALICE }, b, o.ret).mv(&p.addr, FEE, b, o.maker).mv(&p.addr, &rec, a, tax);
                    let d = diff(&balances(&s.w), &balances(&n.w));
                    vensure!(d == e.0, "sale-tax", "selling {v} of asset {i}: balance changes {d:?} instead of {:?}", e.0);
                    vensure!(sim == Ok((o.ret, o.spread, o.comm)), "sale-tax", "simulation says {sim:?}, the swap returned {} with spread {} and commission {}", o.ret, o.spread, o.comm);
                    cov.hit(if tax > 0 { "sale-taxed" } else if s.r.tax.contains_key(&(*i as u8)) { "sale-tax-rounds-to-zero" } else { "sale-untaxed" });
                }
                (r.map(|_| ()), "sell")
            }
            Op::Provide => {
                let r = p.provide(&mut n.w, ALICE, &[self.p.cfg.seed[0] / 5, self.p.cfg.seed[1] / 5], json!({}));
                (r.map(|_| ()), "provide")
            }
            Op::Withdraw => {
                let v = p.lp_of(&s.w, ALICE) / 2;
                (p.withdraw(&mut n.w, ALICE, v, json!({})).map(|_| ()), "withdraw")
            }
            Op::Set { who, tax, admin } => {
                let who = if who == "admin" { s.r.admin.as_str() } else { who.as_str() };
                let mut ok = who == s.r.admin || who == OWNER;
                let mut m = json!({});
                if let Some(tax) = tax {
                    ok &= who == s.r.admin;
                    let mut t = json!({});
                    n.r.tax.clear();
                    for (k, rate, rec) in tax {
                        t[self.denom(*k)] = json!({"tax_rate": rate, "tax_recipient": rec});
                        ok &= *k < 2 && p.toks[*k as usize].native() && dec_raw(rate) <= E18 / 2;
                        n.r.tax.insert(*k, (rate.clone(), rec.clone()));
                    }
                    m["tax_configs"] = t;
                }
                if let Some(a) = admin {
                    ok &= who == s.r.admin;
                    m["tax_config_admin"] = json!(a);
                    n.r.admin = a.clone();
                }
                let r = p.update(&mut n.w, who, m.clone());
                vensure!(r.is_ok() == ok, "tax-config", "{m} from {who} (tax admin {}): {r:?}", s.r.admin);
                (r.map(|_| ()), "set")
            }
        };
        cov.hit(&format!("{k}-{}", if r.is_ok() { "ok" } else { "refused" }));
        if r.is_err() {
            return Ok(None);
        }
        if k == "provide" || k == "withdraw" || k == "set" {
            for rec in [TAXR, REC2] {
                for t in &p.toks {
                    vensure!(t.bal(&s.w, rec) == t.bal(&n.w, rec), "sale-tax", "{k} changed the tax recipient's balance");
                }
            }
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, false);
        h.str(&serde_json::to_string(&s.r).unwrap());
        h.done()
    }
    fn check(&self, s: &S, _: &mut Cov) -> Result<(), Viol> {
        let c = self.p.config_params(&s.w);
        let mut t = json!({});
        for (k, (rate, rec)) in &s.r.tax {
            t[self.denom(*k)] = json!({"tax_rate": rate, "tax_recipient": rec});
        }
        vensure!(c["tax_configs"] == t && c["tax_config_admin"] == json!(s.r.admin), "tax-config", "settings {c} instead of {t} and admin {}", s.r.admin);
        Ok(())
    }
}
fn set(who: &str, tax: Option<Vec<(u8, &str, &str)>>, admin: Option<&str>) -> Op {
    Op::Set { who: who.into(), tax: tax.map(|t| t.into_iter().map(|(k, r, a)| (k, r.to_string(), a.to_string())).collect()), admin: admin.map(|x| x.into()) }
}
fn ops(sizes: [[u128; 3]; 2], cw20: bool) -> Vec<Op> {
    let mut v = vec![];
    for (i, s) in sizes.iter().enumerate() {
        for x in s {
            v.push(Op::Sell { i, v: *x, to: false });
        }
        v.push(Op::Sell { i, v: s[2], to: true });
    }
    v.extend([Op::Provide, Op::Withdraw]);
    v.extend([
        set("admin", Some(vec![]), None),
        set("admin", Some(vec![(0, "0.5", TAXR)]), None),
        set("admin", Some(vec![(0, "0.500000000000000001", TAXR)]), None),
        set("admin", Some(vec![(0, "0", TAXR)]), None),
        set("admin", Some(vec![(1, "0.123", REC2)]), None),
        set("admin", Some(vec![(0, "0.01", REC2), (1, "0.3", TAXR)]), None),
        set("admin", Some(vec![(9, "0.01", TAXR)]), None),
        set("admin", None, Some(BOB)),
        set("admin", Some(vec![(0, "0.2", BOB)]), Some(OWNER)),
        set(OWNER, Some(vec![(0, "0.02", OWNER)]), None),
        set(OWNER, None, Some(OWNER)),
        set(OWNER, None, None),
        set(TAXADM, Some(vec![(0, "0.03", REC2)]), None),
        set(TAXADM, None, Some(TAXADM)),
        set(BOB, Some(vec![(0, "0.04", BOB)]), None),
        set(BOB, None, Some(BOB)),
        set(BOB, None, None),
    ]);
    let _ = cw20;
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A11",
        scenarios: |t| {
            let d = 4 + t as usize;
            let mut v: Vec<Box<dyn Runner>> = vec![];
            for (name, cw20, tax, seed, sizes) in [
                ("small-one-tax", vec![false, false], vec![Some("0.05".to_string()), None], vec![6_000u128, 9_000], [[1u128, 19, 20], [1, 7, 555]]),
                ("big-both-taxed", vec![false, false], vec![Some("0.5".into()), Some("0.000001".into())], vec![7_000_000_000, 1_000_000_007], [[3, 999_999, 123_456_789], [999_999, 1_000_000, 55_555_555]]),
                ("cw20-other-side", vec![false, true], vec![Some("0.1".into()), None], vec![50_000_000, 80_000_000], [[9, 10, 1_000_001], [2, 10, 3_000_003]]),
            ] {
                let mut c = Cfg::new(Kind::Tax);
                c.cw20 = cw20.clone();
                c.tax = tax;
                c.seed = seed;
                let (w0, p) = build(&c);
                v.push(bounded(M { name: name.into(), w0, p: Arc::new(p), ops: ops(sizes, cw20[1]) }, d));
            }
            // creation accepts and refuses the same settings
            let cases: Vec<(String, bool)> = [("0", true), ("0.5", true), ("0.500000000000000001", false), ("1", false), ("7", false)].iter().map(|x| (x.0.to_string(), x.1)).collect();
            v.push(grid("create", cases, |(rate, ok), cov| {
                let mut c = Cfg::new(Kind::Tax);
                c.tax = vec![None, Some(rate.clone())];
                let r = quiet(|| build(&c));
                cov.hit(if r.is_ok() { "created" } else { "refused" });
                vensure!(r.is_ok() == *ok, "tax-config", "a pool with tax rate {rate} was created: {}", r.is_ok());
                Ok(())
            }));
            v
        },
        assumptions: &["constant product gross output computed with 18-decimal quotient, rounded down", "the tax is rounded down to a unit"],
    }]
}
