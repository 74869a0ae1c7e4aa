//! A02 (swap accounting), A05 (deposits and withdrawals), A06 (what a pool accepts), K01 (receiver and auto-stake).
use super::pools::{self, Sc};
use crate::curve::*;
use crate::engine::*;
use crate::pm::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

const MIN_LP: u128 = 1000;

pub struct Fees {
    pub total: u128,
    pub maker: u128,
    pub addr: bool,
}
/// rates in 1e-18
pub fn fees(p: &Pool, w: &World) -> Fees {
    let f = w.q(&p.factory, json!({"fee_info": {"pair_type": p.kind.pair_type()}})).unwrap();
    Fees { total: f["total_fee_bps"].as_u64().unwrap() as u128, maker: f["maker_fee_bps"].as_u64().unwrap() as u128, addr: !f["fee_address"].is_null() }
}
pub struct SwapOut {
    pub ret: u128,
    pub spread: u128,
    pub comm: u128,
    pub maker: u128,
    pub share: u128,
    pub tax: u128,
}
pub fn swap_out(p: &Pool, t: &Tx) -> SwapOut {
    let g = |k: &str| t.attr_u(&p.addr, k);
    SwapOut {
        ret: g("return_amount").expect("return_amount"),
        spread: g("spread_amount").expect("spread_amount"),
        comm: g("commission_amount").expect("commission_amount"),
        maker: g("maker_fee_amount").unwrap_or(0),
        share: g("fee_share_amount").unwrap_or(0),
        tax: g("sale_tax").unwrap_or(0),
    }
}
pub fn swap_exact(t: &Tr, cov: &mut Cov) -> Result<(), Viol> {
    swap_with(t, t.p.cfg.share as u128, SHARE, cov)
}
/// with the shared fee changing along the way: x is [bps, recipient]
fn swap_shared(t: &Tr, x: &Value, cov: &mut Cov) -> Result<Value, Viol> {
    match t.op {
        Op::Update { p, .. } if p["enable_fee_share"].is_object() => return Ok(json!([p["enable_fee_share"]["fee_share_bps"], p["enable_fee_share"]["fee_share_address"]])),
        Op::Update { p, .. } if p == "disable_fee_share" => return Ok(json!([0, SHARE])),
        _ => swap_with(t, x[0].as_u64().unwrap() as u128, x[1].as_str().unwrap(), cov)?,
    }
    Ok(x.clone())
}
/// the shared fee is between one basis point and a tenth of the fee
fn share_limits(t: &Tr, cov: &mut Cov) -> Result<(), Viol> {
    let Op::Update { p, .. } = t.op else { return Ok(()) };
    let ok = match p["enable_fee_share"].as_object() {
        Some(o) => (1..=1000).contains(&o["fee_share_bps"].as_u64().unwrap()) && o["fee_share_address"].as_str().unwrap().starts_with("wasm1"),
        None => true,
    };
    vensure!(t.r.is_ok() == ok, "fee-share-limits", "{p}: {:?}", t.r.as_ref().err());
    cov.hit(if ok { "share-set" } else { "share-refused" });
    Ok(())
}
fn share_ops() -> Vec<Op> {
    let mut v = vec![Op::Update { who: OWNER.into(), p: json!("disable_fee_share") }];
    for (b, a) in [(0, SHARE), (1, SHARE), (300, BOB), (1000, SHARE), (1001, SHARE), (10_000, SHARE), (300, "somebody")] {
        v.push(Op::Update { who: OWNER.into(), p: json!({"enable_fee_share": {"fee_share_bps": b, "fee_share_address": a}}) });
    }
    v
}
fn swap_with(t: &Tr, share_bps: u128, share_to: &str, cov: &mut Cov) -> Result<(), Viol> {
    let (Op::Swap { u: who, i, j, v, to }, Ok(tx)) = (t.op, &t.r) else { return Ok(()) };
    let p = t.p;
    let o = swap_out(p, tx);
    let (who, rec) = (user(*who), if *to { CAROL } else { user(*who) });
    let (a, b) = (p.toks[*i].id(), p.toks[*j].id());
    let mut e = Exp::default();
    e.mv(who, &p.addr, a, *v).mv(&p.addr, rec, b, o.ret).mv(&p.addr, FEE, b, o.maker).mv(&p.addr, share_to, b, o.share).mv(&p.addr, TAXR, a, o.tax);
    let d = diff(&balances(t.w), &balances(t.n));
    vensure!(d == e.0, "balances", "balance changes {d:?}, announced {:?}", e.0);
    let f = fees(p, t.w);
    let gross = o.ret + o.comm;
    match p.kind {
        Kind::Pcl => {
            let c = pcl_state(p, t.w);
            let g = Dd::u(gross);
            let lo = c.mid * (g - Dd::f(2.0)) - Dd::f(1.0);
            let hi = c.out * (g + Dd::f(2.0)) + Dd::f(1.0);
            let x = Dd::u(o.comm);
            vensure!(x >= lo && x <= hi, "commission", "commission {} of gross {gross}: outside fee bounds", o.comm);
            let near = |got: u128, num: u128, den: u128, base: u128| {
                // the fractional commission lies in [base, base + 1)
                got >= mul_div(base, num, den).saturating_sub(1) && got <= mul_div(base + 1, num, den) + 1
            };
            vensure!(near(o.share, share_bps, 10_000, o.comm), "fee-share", "fee share {} of commission {}", o.share, o.comm);
            let m = if f.addr { f.maker } else { 0 };
            vensure!(near(o.maker, m * (10_000 - share_bps), 100_000_000, o.comm), "maker-fee", "maker fee {} of commission {} share {}", o.maker, o.comm, o.share);
        }
        Kind::Trans => vensure!(o.comm + o.share + o.maker + o.spread == 0, "commission", "fees in a transmuter"),
        _ => {
            let c = mul_div(gross, f.total, 10_000);
            vensure!(o.comm == c, "commission", "commission {} of gross {gross}, want {c}", o.comm);
            let s = mul_div(c, share_bps, 10_000);
            vensure!(o.share == s, "fee-share", "fee share {} of commission {c}, want {s}", o.share);
            let m = if f.addr { mul_div(c - s, f.maker, 10_000) } else { 0 };
            vensure!(o.maker == m, "maker-fee", "maker fee {} of commission {c} share {s}, want {m}", o.maker);
        }
    }
    if o.share > 0 {
        cov.hit("with-fee-share");
    }
    if o.maker > 0 {
        cov.hit("with-maker-fee");
    }
    if o.tax > 0 {
        cov.hit("with-tax");
    }
    cov.hit("swap-compared");
    Ok(())
}

fn isqrt(a: u128, b: u128) -> u128 {
    use cosmwasm_std::Uint256;
    let n = Uint256::from(a) * Uint256::from(b);
    let mut lo = Uint256::zero();
    let mut hi = Uint256::from(u128::MAX);
    while lo < hi {
        let m = lo + (hi - lo + Uint256::one()) / Uint256::from(2u8);
        if m.checked_mul(m).map(|x| x <= n).unwrap_or(false) {
            lo = m
        } else {
            hi = m - Uint256::one()
        }
    }
    cosmwasm_std::Uint128::try_from(lo).unwrap().u128()
}
/// bounds for the LP tokens a deposit must mint: (least, most); most is left to A01 where the curve is iterative
fn expected_mint(p: &Pool, w: &World, a: &[u128]) -> (u128, u128) {
    let r = p.reserves(w);
    let s = p.supply(w);
    match p.kind {
        Kind::Xyk | Kind::Tax => {
            let m = if s == 0 { isqrt(a[0], a[1]).saturating_sub(MIN_LP) } else { mul_div(a[0], s, r[0]).min(mul_div(a[1], s, r[1])) };
            (m, m)
        }
        Kind::Stable => {
            let x = |r: &[u128]| stable_d(stable_ann(p, w), Dd::units(r[0], p.dec[0]), Dd::units(r[1], p.dec[1]));
            let d1 = x(&[r[0] + a[0], r[1] + a[1]]);
            let l = lp_dec(p);
            let (m, tol) = if s == 0 {
                (d1.raw(l) - Dd::u(MIN_LP), Dd::f(2e-6).raw(l))
            } else {
                let d0 = x(&r);
                (Dd::u(s) * ((d1 - d0) / d0), Dd::u(s) * (d1 / d0) * (Dd::f(4e-6) / d0))
            };
            let f = |x: Dd| if x <= Dd::ZERO { 0 } else { x.to() as u128 };
            // f64 conversion of large amounts is exact to 2^-52 relative
            let rel = Dd::f(1e-15);
            (f((m - tol) * (Dd::ONE - rel)).saturating_sub(2), f((m + tol) * (Dd::ONE + rel)) + 2)
        }
        Kind::Pcl => {
            let c = pcl_state(p, w);
            let xcp = |x: Dd, y: Dd| crypto_d(c.amp, c.gamma, x, y * c.scale) / (Dd::f(2.0) * c.scale.sqrt());
            let q = |i: usize, v: u128| Dd::units(v, p.dec[i]);
            let v1 = xcp(q(0, r[0] + a[0]), q(1, r[1] + a[1]));
            let f = |x: Dd| if x <= Dd::ZERO { 0 } else { x.to() as u128 };
            if s == 0 {
                let m = (v1 - Dd::f(1e-5)).raw(6) - Dd::u(MIN_LP);
                (f(m).saturating_sub(2), f((v1 + Dd::f(1e-5)).raw(6) - Dd::u(MIN_LP)) + 2)
            } else {
                let v0 = xcp(q(0, r[0]), q(1, r[1]));
                let g = Dd::u(s) * ((v1 - v0) / v0);
                let tol = Dd::u(s) * (Dd::f(2e-5) / v0) + Dd::f(2.0);
                // at most the out fee on the whole deposit is kept
                (f(g * (Dd::ONE - c.out) - tol), f(g + tol))
            }
        }
        Kind::Trans => {
            let m = *p.dec.iter().max().unwrap();
            let v = a.iter().zip(&p.dec).map(|(x, d)| x * 10u128.pow((m - d) as u32)).sum();
            (v, v)
        }
    }
}
pub fn lp_exact(t: &Tr, cov: &mut Cov) -> Result<(), Viol> {
    let p = t.p;
    let Ok(tx) = &t.r else { return Ok(()) };
    let d = diff(&balances(t.w), &balances(t.n));
    let s0 = p.supply(t.w);
    let mut e = Exp::default();
    match t.op {
        Op::Provide { u, a, to, stake } => {
            let who = user(*u);
            for (i, v) in a.iter().enumerate() {
                e.mv(who, &p.addr, p.toks[i].id(), *v);
            }
            let share = tx.attr_u(&p.addr, "share").expect("share");
            let rec = match (*stake, *to) {
                (true, _) => p.incentives.as_deref().expect("incentives"),
                (_, true) => CAROL,
                _ => who,
            };
            e.add(rec, &p.lp, share as i128);
            if s0 == 0 && p.kind != Kind::Trans {
                e.add(&p.addr, &p.lp, MIN_LP as i128);
                cov.hit("first-deposit");
            }
            vensure!(d == e.0, "deposit", "balance changes {d:?}, want {:?}", e.0);
            let (lo, hi) = expected_mint(p, t.w, a);
            let key = if p.kind == Kind::Pcl && (pcl_below_tolerance(p, t.w) || pcl_below_tolerance(p, t.n)) { "pcl-absolute-tolerance" } else { "mint" };
            vensure!(share >= lo && share <= hi, key, "deposit {a:?} into {:?} (supply {s0}) minted {share}, want {lo}..{hi}", p.reserves(t.w));
            cov.hit("deposit-compared");
        }
        Op::Withdraw { u, .. } | Op::WithdrawAbs { u, .. } => {
            let who = user(*u);
            let r = p.reserves(t.w);
            let r1 = p.reserves(t.n);
            e.add(who, &p.lp, -(t.lp as i128));
            for i in 0..p.n() {
                let paid = r[i].saturating_sub(r1[i]);
                e.mv(&p.addr, who, p.toks[i].id(), paid);
                let exact = mul_div(r[i], t.lp, s0);
                // the share is a ratio of 18 decimals, the concentrated pool keeps one LP unit
                let slack = match p.kind {
                    Kind::Pcl => mul_div(r[i], 1, s0) + 2 + r[i] / 1_000_000_000_000_000_000,
                    Kind::Trans => 1,
                    _ => 1 + r[i] / 1_000_000_000_000_000_000,
                };
                vensure!(paid <= exact && paid + slack >= exact, "payout", "{} of {s0} LP paid {paid} of reserve {}, pro rata {exact}", t.lp, r[i]);
            }
            vensure!(d == e.0, "withdrawal", "balance changes {d:?}, want {:?}", e.0);
            cov.hit("withdrawal-compared");
        }
        _ => {
            vensure!(d.keys().all(|k| k.1 != p.lp), "lp-moved", "LP balances changed by {:?}: {d:?}", t.op);
        }
    }
    Ok(())
}
fn locked(m: &PM, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
    let p = &m.p;
    let sup = p.supply(&s.w);
    if p.kind != Kind::Trans && sup > 0 {
        vensure!(sup >= MIN_LP, "minimum", "LP supply {sup}");
        vensure!(p.lp_of(&s.w, &p.addr) == MIN_LP, "minimum", "the pool holds {} LP", p.lp_of(&s.w, &p.addr));
        cov.hit("minimum-locked");
    }
    Ok(())
}
fn with_to(al: &mut Vec<Op>) {
    let mut more = vec![];
    for op in al.iter() {
        match op {
            Op::Swap { u: 0, i, j, v, to: false } => more.push(Op::Swap { u: 0, i: *i, j: *j, v: *v, to: true }),
            Op::Provide { u: 0, a, to: false, stake } => more.push(Op::Provide { u: 0, a: a.clone(), to: true, stake: *stake }),
            _ => {}
        }
    }
    al.extend(more);
}
pub fn trans_cfg() -> Cfg {
    let mut c = Cfg::new(Kind::Trans);
    c.cw20 = vec![false; 3];
    c.dec = vec![6, 8, 6];
    c.tax = vec![None; 3];
    c.seed = vec![1_000, 200_000, 5_000];
    c
}
pub fn trans_alphabet(us: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    for u in us {
        for (i, j, x) in [(0, 1, 1), (0, 2, 700), (1, 0, 50), (1, 0, 100), (1, 2, 12_345), (2, 0, 1), (2, 1, 999), (2, 1, 3_000)] {
            v.push(Op::Swap { u: *u, i, j, v: x, to: false });
        }
        for a in [vec![10, 0, 0], vec![0, 155, 0], vec![3, 700, 9]] {
            v.push(Op::Provide { u: *u, a, to: false, stake: false });
        }
        v.push(Op::Withdraw { u: *u, n: 1, d: 1 });
        v.push(Op::Withdraw { u: *u, n: 1, d: 3 });
    }
    v
}
fn fee_ops() -> Vec<Op> {
    vec![
        Op::Fees { fee: 100, maker: 10_000 },
        Op::Fees { fee: 10_000, maker: 1 },
        Op::Fees { fee: 0, maker: 5_000 },
    ]
}

// ---------------------------------------------------------------- A06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Req {
    Provide { assets: Vec<(usize, u8)>, funds: Vec<u8> },
    Swap { offer: (usize, u8), funds: Vec<u8> },
    /// sent through a cw20 token: which token, amount, whether the message claims an offer asset
    Hook { tok: usize, v: u8, withdraw: bool },
    /// coins of: this pool's LP, another pool's LP, first asset
    Withdraw { funds: Vec<u8> },
}
/// amounts by code, per asset
fn amt(c: u8, i: usize) -> u128 {
    match c {
        0 => 0,
        1 => [1_000_000, 1_000_000, 700_000, 900_000, 44_000, 45_000][i],
        3 => 1,
        _ => [1_000_001, 999_999, 5, 6, 7, 8][i],
    }
}
struct Fix {
    w: World,
    p: Pool,
    /// pool assets, then a foreign native, a foreign cw20
    toks: Vec<Tok>,
    lp2: String,
}
fn fix(kind: Kind, cw: [bool; 2], seeded: bool) -> Fix {
    let mut c = Cfg::new(kind);
    c.cw20 = cw.to_vec();
    if kind == Kind::Pcl {
        c.pcl.price_scale = "1".into();
    }
    if seeded {
        c.seed = vec![50_000_000, 50_000_000];
    }
    let (mut w, p) = build(&c);
    if seeded {
        p.provide(&mut w, ALICE, &[20_000_000, 20_000_000], json!({})).unwrap();
    }
    for u in [ALICE, SEED] {
        w.fund(u, "uforeign", 1 << 90);
    }
    let ft = new_cw20(&mut w, "foreign", 6, &[(ALICE, 1 << 90)]);
    w.exec_json(ALICE, &ft, json!({"increase_allowance": {"spender": p.addr, "amount": "1000000000000"}}), &[]).unwrap();
    let f2 = {
        let mut c = Cfg::new(kind);
        c.seed = vec![50_000_000, 50_000_000];
        if kind == Kind::Pcl {
            c.pcl.price_scale = "1".into();
        }
        build_in(&mut w, &c)
    };
    let l = w.bal(SEED, &f2.lp);
    w.send(SEED, ALICE, &f2.lp, l / 2).unwrap();
    let mut toks = p.toks.clone();
    toks.push(Tok::N("uforeign".into()));
    toks.push(Tok::T(ft));
    // natives in funds: pool natives if any, else their names
    Fix { w, lp2: f2.lp, toks, p }
}
impl Fix {
    fn coins(&self, f: &[u8]) -> Vec<cosmwasm_std::Coin> {
        let nat = ["uaaa", "ubbb", "uforeign"];
        let mut v: Vec<_> = f.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, c)| coin(amt(*c, i), nat[i])).collect();
        v.sort_by(|a, b| a.denom.cmp(&b.denom));
        v
    }
    fn run(&self, r: &Req, cov: &mut Cov) -> Result<(), Viol> {
        let p = &self.p;
        let mut n = self.w.clone();
        for d in ["uaaa", "ubbb"] {
            n.fund(ALICE, d, 1 << 90);
        }
        let w = n.clone();
        let nat = ["uaaa", "ubbb", "uforeign"];
        match r {
            Req::Provide { assets, funds } => {
                let fs = self.coins(funds);
                let list: Vec<_> = assets.iter().map(|(i, c)| self.toks[*i].asset(amt(*c, *i))).collect();
                let mut e = json!({"provide_liquidity": {"assets": list, "slippage_tolerance": "0.5"}});
                if p.kind == Kind::Trans {
                    e["provide_liquidity"]["slippage_tolerance"] = json!(null);
                }
                let res = n.exec_json(ALICE, &p.addr, e, &fs);
                let dup = (0..assets.len()).any(|i| assets[..i].iter().any(|x| x.0 == assets[i].0));
                let member = assets.iter().all(|x| x.0 < 2);
                // what each coin should be according to the request
                let exact = nat.iter().enumerate().all(|(i, d)| {
                    let want: u128 = assets.iter().filter(|x| self.toks[x.0] == Tok::N(d.to_string())).map(|x| amt(x.1, x.0)).sum();
                    amt(funds[i], i) == want
                });
                let valid = !dup && member && exact;
                if let Ok(tx) = &res {
                    let key = if !dup && member && assets.len() < p.n() { "provide-undeclared-coin" } else { "provide" };
                    vensure!(valid, key, "deposit accepted: {assets:?} with {fs:?}");
                    let mut e = Exp::default();
                    for (i, c) in assets {
                        e.mv(ALICE, &p.addr, self.toks[*i].id(), amt(*c, *i));
                    }
                    e.add(ALICE, &p.lp, tx.attr_u(&p.addr, "share").expect("share") as i128);
                    if p.supply(&w) == 0 && p.kind != Kind::Trans {
                        e.add(&p.addr, &p.lp, MIN_LP as i128);
                    }
                    let d = diff(&balances(&w), &balances(&n));
                    vensure!(d == e.0, "provide-balances", "deposit {assets:?}: {d:?}, want {:?}", e.0);
                    cov.hit("provide-accepted");
                } else {
                    let plain = valid && assets.len() == p.n() && assets.iter().all(|x| x.1 == 1 || x.1 == 2);
                    vensure!(!plain, "provide-refused", "plain deposit {assets:?} with {fs:?} refused: {:?}", res.err());
                    cov.hit("provide-refused");
                }
            }
            Req::Swap { offer, funds } => {
                let fs = self.coins(funds);
                let a = amt(offer.1, offer.0);
                let res = n.exec_json(ALICE, &p.addr, json!({"swap": {"offer_asset": self.toks[offer.0].asset(a), "max_spread": "0.5"}}), &fs);
                let exact = nat.iter().enumerate().all(|(i, d)| {
                    let want = if self.toks[offer.0] == Tok::N(d.to_string()) { a } else { 0 };
                    amt(funds[i], i) == want
                });
                let valid = offer.0 < 2 && self.toks[offer.0].native() && exact && a > 0;
                let tiny = a == 1;
                // a zero offer with nothing attached may go either way
                if a == 0 && fs.is_empty() && res.is_ok() {
                    let d = diff(&balances(&w), &balances(&n));
                    vensure!(d.is_empty(), "swap-zero", "a zero swap moved {d:?}");
                    return Ok(());
                }
                if res.is_ok() {
                    vensure!(valid, "swap", "swap accepted: {offer:?} with {fs:?}");
                    let d = diff(&balances(&w), &balances(&n));
                    let k = (ALICE.to_string(), self.toks[offer.0].id().to_string());
                    vensure!(d.get(&k) == Some(&-(a as i128)), "swap-paid", "swap {offer:?}: {d:?}");
                    cov.hit("swap-accepted");
                } else {
                    vensure!(!(valid && !tiny && p.supply(&w) > 0), "swap-refused", "plain swap {offer:?} with {fs:?} refused: {:?}", res.err());
                    cov.hit("swap-refused");
                }
            }
            Req::Hook { tok, v, withdraw } => {
                let Tok::T(t) = &self.toks[*tok] else { return Ok(()) };
                let a = amt(*v, *tok);
                let inner = if *withdraw { json!({"withdraw_liquidity": {"assets": []}}) } else { json!({"swap": {"max_spread": "0.5"}}) };
                let res = n.exec_json(ALICE, t, json!({"send": {"contract": p.addr, "amount": a.to_string(), "msg": b64(&inner)}}), &[]);
                if res.is_ok() {
                    vensure!(*tok < 2 && !withdraw && a > 0, "hook", "cw20 hook accepted: {r:?}");
                    let d = diff(&balances(&w), &balances(&n));
                    let k = (ALICE.to_string(), t.to_string());
                    vensure!(d.get(&k) == Some(&-(a as i128)), "swap-paid", "hook {r:?}: {d:?}");
                    cov.hit("hook-accepted");
                } else {
                    vensure!(!(*tok < 2 && !withdraw && a > 0 && p.supply(&w) > 0), "swap-refused", "plain cw20 swap refused: {:?}", res.err());
                    cov.hit("hook-refused");
                }
                // a direct call pretending to be a token
                let mut m = w.clone();
                let r2 = m.exec_json(ALICE, &p.addr, json!({"receive": {"sender": ALICE, "amount": "1000", "msg": b64(&inner)}}), &[]);
                vensure!(r2.is_err(), "hook-forged", "forged receive accepted");
            }
            Req::Withdraw { funds } => {
                let den = [p.lp.as_str(), self.lp2.as_str(), "uaaa"];
                let fs: Vec<_> = {
                    let mut v: Vec<_> = funds.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, c)| coin(amt(*c, i), den[i])).collect();
                    v.sort_by(|a, b| a.denom.cmp(&b.denom));
                    v
                };
                let res = n.exec_json(ALICE, &p.addr, json!({"withdraw_liquidity": {"assets": []}}), &fs);
                let valid = funds[0] > 0 && funds[1] == 0 && funds[2] == 0;
                if res.is_ok() {
                    vensure!(valid, "withdraw", "withdrawal accepted with {fs:?}");
                    cov.hit("withdraw-accepted");
                } else {
                    vensure!(!(valid && p.lp_of(&w, ALICE) >= amt(funds[0], 0)), "withdraw-refused", "withdrawal with {fs:?} refused: {:?}", res.err());
                    cov.hit("withdraw-refused");
                }
            }
        }
        Ok(())
    }
}
fn reqs(thorough: bool) -> Vec<Req> {
    let mut one = vec![];
    for i in 0..4 {
        for c in 0..3u8 {
            one.push((i, c));
        }
    }
    let mut lists: Vec<Vec<(usize, u8)>> = vec![vec![]];
    for a in &one {
        lists.push(vec![*a]);
        for b in &one {
            lists.push(vec![*a, *b]);
            for c in &one {
                if thorough || (a.1 > 0 && b.1 > 0) {
                    lists.push(vec![*a, *b, *c]);
                }
            }
        }
    }
    // the smallest amount
    lists.extend([vec![(0, 3), (1, 1)], vec![(0, 1), (1, 3)], vec![(0, 3), (1, 3)], vec![(0, 1), (1, 1), (2, 3)]]);
    let mut funds = vec![];
    for a in 0..3u8 {
        for b in 0..3 {
            for c in 0..3 {
                funds.push(vec![a, b, c]);
            }
        }
    }
    let mut v = vec![];
    for f in &funds {
        for l in &lists {
            v.push(Req::Provide { assets: l.clone(), funds: f.clone() });
        }
        for o in &one {
            v.push(Req::Swap { offer: *o, funds: f.clone() });
        }
        v.push(Req::Swap { offer: (0, 3), funds: f.clone() });
        v.push(Req::Swap { offer: (1, 3), funds: f.clone() });
        v.push(Req::Withdraw { funds: f.clone() });
    }
    for tok in 0..4 {
        for x in 0..3 {
            for withdraw in [false, true] {
                v.push(Req::Hook { tok, v: x, withdraw });
            }
        }
    }
    v
}
fn a06(thorough: bool) -> Vec<Box<dyn Runner>> {
    let mut v: Vec<Box<dyn Runner>> = vec![];
    let cases = reqs(thorough);
    for kind in KINDS {
        for cw in [[false, false], [false, true], [true, true]] {
            if kind == Kind::Trans && cw != [false, false] {
                continue;
            }
            for seeded in [true, false] {
                if !seeded && !thorough && cw != [false, false] {
                    continue;
                }
                let f = Arc::new(fix(kind, cw, seeded));
                let name = format!("{kind:?}-{}{}", if seeded { "live-" } else { "fresh-" }, cw.iter().map(|x| if *x { 't' } else { 'n' }).collect::<String>());
                v.push(grid(&name, cases.clone(), move |r: &Req, c: &mut Cov| f.run(r, c)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- K01
fn staked(p: &Pool, w: &World, who: &str) -> u128 {
    let i = p.incentives.as_ref().unwrap();
    w.q(i, json!({"deposit": {"lp_token": p.lp, "user": who}})).map(|v| u(&v)).unwrap_or(0)
}
fn credited(t: &Tr, cov: &mut Cov) -> Result<(), Viol> {
    let p = t.p;
    let Op::Provide { u: who, a, to, stake } = t.op else { return Ok(()) };
    // the twin request without auto-stake and receiver
    let (plain, n0, _) = t.m.apply(t.w, &Op::Provide { u: *who, a: a.clone(), to: false, stake: false });
    let me = user(*who);
    let rec = if *to { CAROL } else { me };
    match (&t.r, &plain) {
        (Ok(_), Ok(_)) => {
            let minted = p.lp_of(&n0, me) - p.lp_of(t.w, me);
            for x in [ALICE, BOB, SEED, CAROL, p.addr.as_str()] {
                let dl = p.lp_of(t.n, x) as i128 - p.lp_of(t.w, x) as i128;
                let mut want = if x == rec && !stake { minted as i128 } else { 0 };
                if x == p.addr && p.supply(t.w) == 0 {
                    want += MIN_LP as i128;
                }
                vensure!(dl == want, "lp-credit", "{x}'s LP changed by {dl}, want {want}");
                let ds = staked(p, t.n, x) as i128 - staked(p, t.w, x) as i128;
                let want = if x == rec && *stake { minted as i128 } else { 0 };
                vensure!(ds == want, "stake-credit", "{x}'s stake changed by {ds}, want {want}");
            }
            let i = p.incentives.as_ref().unwrap();
            let di = p.lp_of(t.n, i) - p.lp_of(t.w, i);
            vensure!(di == if *stake { minted } else { 0 }, "incentives-lp", "incentives received {di} LP");
            cov.hit(if *stake { "staked" } else { "plain" });
            if *to {
                cov.hit("for-another");
            }
        }
        (Err(_), Err(_)) => {}
        (Err(_), Ok(_)) if *stake && p.kind == Kind::Trans => cov.hit("stake-refused"),
        (a, b) => return viol("differs", format!("with stake/receiver: {:?}, plain: {:?}", a.as_ref().err(), b.as_ref().err())),
    }
    Ok(())
}
fn k01(thorough: bool) -> Vec<Box<dyn Runner>> {
    let mut v: Vec<Box<dyn Runner>> = vec![];
    for s in pools::all(thorough) {
        for fresh in [false, true] {
            let mut s: Sc = if fresh { pools::fresh(&s) } else { s.clone() };
            s.cfg.incentives = true;
            let mut al = vec![];
            for a in &s.provides {
                for u in [0, 1] {
                    for to in [false, true] {
                        for stake in [false, true] {
                            al.push(Op::Provide { u, a: a.to_vec(), to, stake });
                        }
                    }
                }
            }
            al.push(Op::Withdraw { u: 0, n: 1, d: 1 });
            al.push(Op::Swap { u: 1, i: 0, j: 1, v: s.swaps[0][2], to: false });
            v.push(bounded(PM::new(&s.name, s.cfg.clone(), al, &[credited]), 2 + thorough as usize));
        }
    }
    // transmuters cannot stake: asked to, they must not take the deposit as if they had
    let mut c = trans_cfg();
    c.incentives = true;
    let al = [false, true]
        .iter()
        .flat_map(|to| [false, true].map(|stake| Op::Provide { u: 0, a: vec![300, 20_000, 0], to: *to, stake }))
        .chain([Op::Withdraw { u: 0, n: 1, d: 1 }])
        .collect();
    v.push(bounded(PM::new("Trans-6-8-6", c, al, &[credited]), 2 + thorough as usize));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A02",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                for s in pools::all(t).into_iter().chain(pools::ramping()) {
                    let pcl = s.cfg.kind == Kind::Pcl;
                    let heavy = pcl || s.cfg.kind == Kind::Stable;
                    let mut al = s.full(&[0]);
                    with_to(&mut al);
                    if s.cfg.kind != Kind::Pcl {
                        al.extend(fee_ops());
                    } else {
                        al.push(Op::Fees { fee: 0, maker: 10_000 });
                        al.push(Op::Fees { fee: 0, maker: 0 });
                    }
                    al.extend(s.donations());
                    let m = PM::new(&s.name, s.cfg.clone(), al, &[swap_exact]).timed(13, 1);
                    v.push(bounded(m, if heavy { 3 } else { 4 } + t as usize));
                    if s.cfg.ramp || matches!(s.cfg.kind, Kind::Tax | Kind::Trans) {
                        continue;
                    }
                    let mut al = share_ops();
                    for i in 0..2 {
                        al.push(Op::Swap { u: 0, i, j: 1 - i, v: *s.swaps[i].last().unwrap(), to: false });
                    }
                    if !pcl {
                        al.push(Op::Fees { fee: 10_000, maker: 10_000 });
                    }
                    let m = PM::new(&format!("{}-shared", s.name), s.cfg.clone(), al, &[share_limits]).aux(json!([s.cfg.share, SHARE]), swap_shared).timed(13, 1);
                    v.push(bounded(m, 3 + t as usize));
                }
                v.push(bounded(PM::new("Trans-6-8-6", trans_cfg(), trans_alphabet(&[0]), &[swap_exact]), 4 + t as usize));
                v
            },
            assumptions: &["concentrated pools compute the commission with 18 decimals: parts of it are compared within one smallest unit"],
        },
        Prop {
            id: "A05",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                for s in pools::all(t).into_iter().chain(pools::ramping()) {
                    let heavy = matches!(s.cfg.kind, Kind::Pcl | Kind::Stable);
                    let mut al = s.full(&[0, 1]);
                    with_to(&mut al);
                    al.extend(s.donations());
                    al.push(Op::Withdraw { u: 2, n: 1, d: 1 });
                    al.push(Op::WithdrawAbs { u: 0, v: 1 });
                    al.push(Op::WithdrawAbs { u: 0, v: 2 });
                    v.push(bounded(PM::new(&s.name, s.cfg.clone(), al, &[lp_exact]).state(locked), 3 + (t && !heavy) as usize));
                    if s.cfg.ramp {
                        continue;
                    }
                    let f = pools::fresh(&s);
                    let mut al = f.full(&[0]);
                    with_to(&mut al);
                    v.push(bounded(PM::new(&f.name, f.cfg.clone(), al, &[lp_exact]).state(locked), 3 + t as usize));
                }
                v.push(bounded(PM::new("Trans-6-8-6", trans_cfg(), trans_alphabet(&[0, 1]), &[lp_exact]), 3 + t as usize));
                v
            },
            assumptions: &["curves solved by iteration: the minted amount is compared within the documented convergence bound (1e-6 whole tokens for stable, 1e-5 for concentrated)"],
        },
        Prop { id: "A06", scenarios: a06, assumptions: &["amounts of a request take one of four values per asset (zero, one unit and two different ones)"] },
        Prop { id: "K01", scenarios: k01, assumptions: &[] },
    ]
}
