//! A03: simulations predict execution. A04: user protection limits.
use super::ops::{swap_out, trans_alphabet, trans_cfg};
use super::pools;
use crate::curve::*;
use crate::engine::*;
use crate::pm::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde_json::{json, Value};

/// (offer index, ask index, amount) of every swap in the alphabet, and larger trades
pub fn offers(m: &PM, w: &World) -> Vec<(usize, usize, u128)> {
    let mut v: Vec<(usize, usize, u128)> = m
        .alphabet
        .iter()
        .filter_map(|o| match o {
            Op::Swap { i, j, v, .. } => Some((*i, *j, *v)),
            _ => None,
        })
        .collect();
    let r = m.p.reserves(w);
    if m.p.n() == 2 {
        for i in 0..2 {
            v.push((i, 1 - i, r[i] / 3 + 1));
            v.push((i, 1 - i, r[i] * 2 + 1));
        }
    }
    v.sort();
    v.dedup();
    v
}
fn deposits(m: &PM) -> Vec<Vec<u128>> {
    let mut v: Vec<Vec<u128>> = m.alphabet.iter().filter_map(|o| if let Op::Provide { a, .. } = o { Some(a.clone()) } else { None }).collect();
    v.sort();
    v.dedup();
    v
}
fn ask_extra(p: &Pool, j: usize) -> Value {
    if p.n() > 2 {
        json!({"max_spread": "0.5", "ask_asset_info": p.toks[j].info()})
    } else {
        json!({"max_spread": "0.5"})
    }
}
fn amounts(v: &Value) -> Vec<u128> {
    v.as_array().unwrap().iter().map(|a| u(&a["amount"])).collect()
}
pub fn predict(m: &PM, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
    let (p, w) = (&m.p, &s.w);
    if p.supply(w) == 0 {
        for a in deposits(m) {
            predict_provide(p, w, &a, cov)?;
        }
        return Ok(());
    }
    for (i, j, v) in offers(m, w) {
        let sim = p.sim(w, i, v, (p.n() > 2).then_some(j));
        let mut n = w.clone();
        let ex = p.swap(&mut n, ALICE, i, v, ask_extra(p, j));
        match (&sim, &ex) {
            (Ok(sm), Ok(t)) => {
                let o = swap_out(p, t);
                vensure!(*sm == (o.ret, o.spread, o.comm), "swap-sim", "offer {v} of {i}: simulated {sm:?}, executed {:?}", (o.ret, o.spread, o.comm));
                let got = p.toks[j].bal(&n, ALICE) - p.toks[j].bal(w, ALICE);
                vensure!(got == sm.0, "swap-sim", "offer {v} of {i}: simulated {sm:?}, received {got}");
                cov.hit("swap-agrees");
            }
            (Ok(sm), Err(e)) => {
                // legitimately refused: nothing to pay out, or more than half lost to spread
                let gross = sm.0 + if p.kind == Kind::Pcl { 0 } else { sm.2 };
                let ok = sm.0 == 0 || sm.1 * 2 + 4 >= gross + sm.1;
                let key = if p.kind == Kind::Pcl && pcl_below_tolerance(p, w) { "pcl-absolute-tolerance" } else { "swap-sim" };
                vensure!(ok, key, "offer {v} of {i}: simulated {sm:?}, refused: {e}");
                cov.hit("swap-over-spread");
            }
            (Err(e), Ok(_)) => return viol("swap-sim", format!("offer {v} of {i}: simulation failed ({e}), execution succeeded")),
            (Err(_), Err(_)) => cov.hit("swap-refused"),
        }
    }
    // reverse simulations
    let r = p.reserves(w);
    for j in 0..p.n() {
        for i in (0..p.n()).filter(|i| *i != j) {
            for q in [1, 2, r[j] / 1000, r[j] / 7, r[j] / 3 + 1, r[j] * 3 / 5, r[j], r[j] + 1] {
                if q == 0 || r[j] == 0 {
                    continue;
                }
                reverse(p, w, i, j, q, cov)?;
            }
        }
    }
    // withdrawals
    let lp = p.lp_of(w, SEED);
    for l in [1, 2, lp / 7, lp / 2, lp] {
        if l == 0 || l > lp {
            continue;
        }
        let share = p.w_q(w, json!({"share": {"amount": l.to_string()}}))?;
        let mut n = w.clone();
        let ex = p.withdraw(&mut n, SEED, l, json!({}));
        let share = if share.is_array() { amounts(&share) } else { vec![] };
        if ex.is_ok() {
            let got: Vec<u128> = p.toks.iter().map(|t| t.bal(&n, SEED) - t.bal(w, SEED)).collect();
            vensure!(got == share, "withdraw-sim", "share of {l} LP predicted {share:?}, paid {got:?}");
            if p.kind != Kind::Trans {
                let sw = p.w_q(w, json!({"simulate_withdraw": {"lp_amount": l.to_string()}}))?;
                vensure!(amounts(&sw) == got, "withdraw-sim", "simulated withdrawal of {l} LP {sw}, paid {got:?}");
            }
            cov.hit("withdraw-agrees");
        } else {
            vensure!(share.iter().any(|x| *x == 0), "withdraw-sim", "share of {l} LP predicted {share:?}, refused {:?}", ex.err());
            cov.hit("withdraw-refused");
        }
    }
    for a in deposits(m) {
        predict_provide(p, w, &a, cov)?;
    }
    Ok(())
}
impl Pool {
    pub fn w_q(&self, w: &World, q: Value) -> Result<Value, Viol> {
        w.q(&self.addr, q.clone()).map_err(|e| Viol { key: "query-failed".into(), msg: format!("{q}: {e}") })
    }
}
fn predict_provide(p: &Pool, w: &World, a: &[u128], cov: &mut Cov) -> Result<(), Viol> {
    if p.kind == Kind::Trans {
        return Ok(());
    }
    let sim = w.q(&p.addr, json!({"simulate_provide": {"assets": p.assets(a), "slippage_tolerance": "0.5"}}));
    let mut n = w.clone();
    let before = p.lp_of(w, ALICE);
    let ex = p.provide(&mut n, ALICE, a, json!({}));
    match (&sim, &ex) {
        (Ok(s), Ok(_)) => {
            let got = p.lp_of(&n, ALICE) - before;
            vensure!(u(s) == got, "provide-sim", "deposit {a:?}: simulated {s}, minted {got}");
            cov.hit("provide-agrees");
        }
        (Ok(s), Err(e)) => {
            vensure!(u(s) == 0, "provide-sim", "deposit {a:?}: simulated {s}, refused: {e}");
            cov.hit("provide-zero");
        }
        (Err(e), Ok(_)) => return viol("provide-sim", format!("deposit {a:?}: simulation failed ({e}), execution succeeded")),
        (Err(_), Err(_)) => cov.hit("provide-refused"),
    }
    Ok(())
}
fn reverse(p: &Pool, w: &World, i: usize, j: usize, q: u128, cov: &mut Cov) -> Result<(), Viol> {
    let key = if p.kind == Kind::Pcl && pcl_below_tolerance(p, w) { "pcl-absolute-tolerance" } else { "reverse-sim" };
    let rev = p.rev(w, j, q, (p.n() > 2 || p.kind == Kind::Trans).then_some(i));
    if p.n() == 2 {
        // naming the other asset changes nothing, whichever way it is asked
        let (a, b) = (p.rev(w, j, q, None), p.rev(w, j, q, Some(i)));
        vensure!(a.clone().ok() == b.clone().ok(), key, "reverse simulation of {q} of asset {j}: {a:?}, naming the other asset {b:?}");
        let (a, b) = (p.sim(w, i, q, None), p.sim(w, i, q, Some(j)));
        vensure!(a.clone().ok() == b.clone().ok(), key, "simulation of {q} of asset {i}: {a:?}, naming the other asset {b:?}");
    }
    let r = p.reserves(w);
    if p.kind != Kind::Trans && r.contains(&0) {
        // a stable pool whose last unit was bought (see A14) has no price
        cov.hit("emptied");
        return Ok(());
    }
    let ask = (p.n() > 2).then_some(j);
    vensure!(q <= r[j] || rev.is_err(), key, "asking {q} of asset {j}, of which the pool holds {}: reverse simulation offers {rev:?}", r[j]);
    let (o, _, _) = match rev {
        Ok(x) => x,
        Err(e) => {
            // no offer reaches this amount: the fee takes it over the reserve, or the transmuter lacks it
            let f = super::ops::fees(p, w);
            let reach = match p.kind {
                Kind::Trans => r[j],
                Kind::Pcl => r[j] / 10 * 9,
                _ => mul_div(r[j], 10_000 - f.total.min(10_000), 10_000).saturating_sub(2),
            };
            // worth less than one unit of the coarser asset: no offer amount corresponds to it
            let dust = 2 * 10u128.pow(p.dec[j].saturating_sub(p.dec[i].min(6)) as u32);
            vensure!(q > reach || f.total >= 10_000 || q <= dust, key, "reverse simulation of {q} of asset {j} failed: {e}");
            cov.hit("reverse-refused");
            return Ok(());
        }
    };
    let sim = |v: u128| if v == 0 { Ok(0) } else { p.sim(w, i, v, ask).map(|x| x.0) };
    // one unit more or less of either asset is rounding; where the offer is taxed, scaled by the tax
    let slack = match p.kind {
        Kind::Tax => 4,
        Kind::Trans => 1,
        _ => 2,
    };
    let rel = |d: u8| 1 + o / 10u128.pow(d as u32);
    // 18-decimal ratios
    let mut slack = slack * rel(17);
    let mut tol = 1u128;
    if p.kind == Kind::Pcl {
        // Newton iterations stop at an absolute step of 1e-5 tokens, which leaves the square of it over the
        // width of the curve's bend
        let c = pcl_state(p, w);
        let x = xs(p, w);
        let (a, b) = (x[0], x[1] * c.scale);
        let m = if a < b { a } else { b };
        let e = Dd::f(1e-10) / (c.gamma * m);
        let per = |k: usize| if k == 1 { c.scale } else { Dd::ONE };
        slack += (e / per(i)).raw(p.dec[i]).to() as u128;
        tol += (e / per(j)).raw(p.dec[j]).to() as u128;
    }
    if p.kind == Kind::Trans && p.dec[j] > p.dec[i] && (o + 1) * 10u128.pow((p.dec[j] - p.dec[i]) as u32) > r[j] && q != r[j] {
        // one unit of the coarser asset is worth more than all that is left of the finer one
        cov.hit("coarse");
        return Ok(());
    }
    let most = p.kind == Kind::Trans && q == r[j];
    let up = sim(if most { o } else { o + slack }).map_err(|e| Viol { key: key.into(), msg: format!("executing the reverse-simulated {o}: {e}") })?;
    vensure!(up + if most { 1 + q / o.max(1) } else { tol } >= q, key, "asking {q} of asset {j}: reverse simulation offers {o}, and {} yields {up} (reserves {r:?})", if most { o } else { o + slack });
    if o > slack + 1 {
        let down = sim(o - slack - 1).unwrap_or(0);
        let lim = match p.kind {
            Kind::Pcl => {
                // the reverse simulation assumes the largest fee
                let c = pcl_state(p, w);
                (Dd::u(q + tol) * ((Dd::ONE - c.mid) / (Dd::ONE - c.out))).to() as u128 + 2
            }
            _ => q + 1,
        };
        vensure!(down <= lim, key, "asking {q} of asset {j}: reverse simulation offers {o}, but {} already yields {down}", o - slack - 1);
    }
    cov.hit("reverse-agrees");
    Ok(())
}

// ---------------------------------------------------------------- A04
/// decimals of a price or rate with 18 places
fn dec18(x: Dd) -> String {
    let n = x.raw(18).to();
    if n < 0.0 {
        return "0".into();
    }
    let n = n as u128;
    format!("{}.{:018}", n / 1_000_000_000_000_000_000, n % 1_000_000_000_000_000_000)
}
fn limits(m: &PM, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
    let (p, w) = (&m.p, &s.w);
    if p.supply(w) == 0 {
        return Ok(());
    }
    if p.kind != Kind::Trans {
        for (i, j, v) in offers(m, w) {
            swap_limits(p, w, i, j, v, cov)?;
        }
    }
    for a in deposits(m) {
        let mut n = w.clone();
        let Ok(_) = p.provide(&mut n, ALICE, &a, json!({})) else { continue };
        let got = p.lp_of(&n, ALICE) - p.lp_of(w, ALICE);
        for (min, ok) in [(0, true), (got / 2, true), (got - 1, true), (got, true), (got + 1, false), (got * 3, false)] {
            let mut n = w.clone();
            let r = p.provide(&mut n, ALICE, &a, json!({"min_lp_to_receive": min.to_string()}));
            vensure!(r.is_ok() == ok, "min-lp", "deposit {a:?} mints {got}; with minimum {min}: {:?}", r.map(|_| "accepted"));
            cov.hit(if ok { "min-lp-accepted" } else { "min-lp-refused" });
        }
        // the minimum holds wherever the shares go: another receiver, or staked at once
        let mut ways = vec![json!({"receiver": BOB})];
        if p.kind != Kind::Trans {
            ways.push(json!({"auto_stake": true}));
            ways.push(json!({"auto_stake": true, "receiver": BOB}));
        }
        for way in ways {
            for (min, ok) in [(got, true), (got + 1, false), (got * 3, false)] {
                let mut n = w.clone();
                let mut x = way.clone();
                x["min_lp_to_receive"] = json!(min.to_string());
                let r = p.provide(&mut n, ALICE, &a, x);
                vensure!(r.is_ok() == ok, "min-lp-elsewhere", "deposit {a:?} with {way} mints {got}; with minimum {min}: {:?}", r.map(|_| "accepted"));
                cov.hit(if ok { "min-lp-elsewhere-accepted" } else { "min-lp-elsewhere-refused" });
            }
        }
        slippage(p, w, &a, cov)?;
    }
    let lp = p.lp_of(w, SEED);
    for l in [lp / 5, lp] {
        let mut n = w.clone();
        let Ok(_) = p.withdraw(&mut n, SEED, l, json!({})) else { continue };
        let got: Vec<u128> = p.toks.iter().map(|t| t.bal(&n, SEED) - t.bal(w, SEED)).collect();
        let mut reqs: Vec<(Vec<(usize, u128)>, bool)> = vec![];
        let all: Vec<usize> = (0..p.n()).collect();
        for rev in [false, true] {
            let order: Vec<usize> = if rev { all.iter().rev().copied().collect() } else { all.clone() };
            reqs.push((order.iter().map(|i| (*i, got[*i])).collect(), true));
            reqs.push((order.iter().map(|i| (*i, 0)).collect(), true));
            for k in 0..p.n() {
                reqs.push((order.iter().map(|i| (*i, got[*i] + (*i == k) as u128)).collect(), false));
                reqs.push((order.iter().map(|i| (*i, if *i == k { got[*i].saturating_sub(1) } else { 0 })).collect(), true));
            }
        }
        for k in 0..p.n() {
            // the same asset twice, the second entry out of reach: it must not be checked against another asset
            let big = *got.iter().max().unwrap();
            if got[k] < big {
                reqs.push((vec![(k, 0), (k, big)], false));
            }
        }
        for (min, ok) in reqs {
            let mut n = w.clone();
            let l2: Vec<Value> = min.iter().map(|(i, v)| p.toks[*i].asset(*v)).collect();
            let r = p.withdraw(&mut n, SEED, l, json!({"min_assets_to_receive": l2}));
            vensure!(r.is_ok() == ok, "min-assets", "withdrawing {l} LP pays {got:?}; with minimum {min:?}: {:?}", r.map(|_| "accepted"));
            cov.hit(if ok { "min-assets-accepted" } else { "min-assets-refused" });
        }
    }
    Ok(())
}
fn swap_limits(p: &Pool, w: &World, i: usize, _j: usize, v: u128, cov: &mut Cov) -> Result<(), Viol> {
    let Ok((ret, spread, comm)) = p.sim(w, i, v, None) else { return Ok(()) };
    if ret == 0 {
        return Ok(());
    }
    let pcl = p.kind == Kind::Pcl;
    let got = Dd::u(if pcl { ret } else { ret + comm });
    // what reaches the pool after a sale tax is what is priced
    let sold = match p.cfg.tax.get(i).cloned().flatten() {
        Some(t) if p.kind == Kind::Tax => Dd::u(v - (Dd::u(v) * Dd::dec(&t)).to() as u128),
        _ => Dd::u(v),
    };
    let frac = Dd::u(spread) / (got + Dd::u(spread));
    let default = Dd::dec(if pcl { "0.05" } else { "0.005" });
    let eps = Dd::f(2e-18);
    let mut run = |extra: Value| {
        let mut n = w.clone();
        p.swap(&mut n, ALICE, i, v, extra).map(|_| ())
    };
    // spread limit alone
    let cases = [Dd::ZERO, frac * Dd::f(0.5), frac - Dd::f(1e-15), frac + Dd::f(1e-15), Dd::f(0.1), Dd::f(0.5)];
    let mut opts: Vec<Option<Dd>> = cases.iter().filter(|c| **c >= Dd::ZERO && **c <= Dd::f(0.5)).map(|c| Some(*c)).collect();
    opts.push(None);
    for ms in opts {
        let lim = ms.unwrap_or(default);
        let r = run(ms.map(|x| json!({"max_spread": dec18(x)})).unwrap_or(json!({})));
        if r.is_ok() {
            vensure!(frac <= lim + eps, "spread", "offer {v} of {i}: spread {spread} of {} accepted with limit {}", got.to(), lim.to());
            cov.hit("spread-accepted");
        } else {
            vensure!(frac > lim - eps, "spread-refused", "offer {v} of {i}: spread {spread} of {} refused with limit {}: {:?}", got.to(), lim.to(), r.err());
            cov.hit("spread-refused");
        }
    }
    for (ms, what) in [("0.500000000000000001", "just above"), ("0.9", "far above"), ("1", "one"), ("2", "two")] {
        for b in [None, Some("1")] {
            vensure!(run(json!({"max_spread": ms, "belief_price": b})).is_err(), "spread-max", "limit {ms} ({what} the maximum) accepted");
        }
    }
    cov.hit("spread-over-maximum-refused");
    // belief price: the trader expects offer / belief
    let fair = sold / got;
    let mut beliefs: Vec<Dd> = vec![];
    for f in [0.3, 0.49, 0.51, 0.9, 0.99, 0.994, 0.996, 1.0, 1.01, 3.0] {
        beliefs.push(fair * Dd::f(f));
    }
    for b in beliefs {
        let bs = dec18(b);
        let b = Dd::dec(&bs);
        if b <= Dd::ZERO {
            continue;
        }
        let exp = sold / b;
        // the inverse has 18 decimals and the expected amount is a whole number
        let exp_lo = exp - sold * Dd::f(1e-18) - Dd::ONE;
        for ms in [None, Some("0"), Some("0.01"), Some("0.1"), Some("0.5")] {
            let lim = ms.map(Dd::dec).unwrap_or(default);
            let r = run(json!({"belief_price": bs, "max_spread": ms}));
            let k = Dd::ONE - lim;
            if r.is_ok() {
                vensure!(got >= exp_lo * (k - eps) - Dd::f(1e-9), "belief", "offer {v} of {i}: got {} against {} expected at {bs}, limit {}", got.to(), exp.to(), lim.to());
                cov.hit("belief-accepted");
            } else {
                vensure!(got < exp * (k + eps) + Dd::f(1e-9), "belief-refused", "offer {v} of {i}: got {} against {} expected at {bs}, limit {}: {:?}", got.to(), exp.to(), lim.to(), r.err());
                cov.hit("belief-refused");
            }
        }
    }
    Ok(())
}
/// slippage tolerance of deposits: constant-product pools limit the ratio, concentrated pools the loss of LP
fn slippage(p: &Pool, w: &World, a: &[u128], cov: &mut Cov) -> Result<(), Viol> {
    let tols: [Option<&str>; 7] = [None, Some("0"), Some("0.005"), Some("0.02"), Some("0.1"), Some("0.3"), Some("0.5")];
    let run = |t: Option<&str>| {
        let mut n = w.clone();
        p.provide(&mut n, ALICE, a, json!({"slippage_tolerance": t})).map(|_| p.lp_of(&n, ALICE) - p.lp_of(w, ALICE))
    };
    match p.kind {
        Kind::Xyk | Kind::Tax => {
            let r = p.reserves(w);
            // d0/d1 * (1-t) <= p0/p1 and the reverse, exactly, with room for 18-decimal ratios
            let (x, y) = (Dd::u(a[0]) / Dd::u(a[1]), Dd::u(r[0]) / Dd::u(r[1]));
            for t in tols {
                let k = Dd::ONE - t.map(Dd::dec).unwrap_or(Dd::dec("0.005"));
                let e = Dd::f(2e-18);
                let res = run(t);
                if res.is_ok() {
                    vensure!((x - e) * k <= y + e && (Dd::ONE / x - e) * k <= Dd::ONE / y + e, "slippage", "deposit {a:?} into {r:?} accepted with tolerance {t:?}");
                    cov.hit("slippage-accepted");
                } else {
                    vensure!((x + e) * k > y - e || (Dd::ONE / x + e) * k > Dd::ONE / y - e, "slippage-refused", "deposit {a:?} into {r:?} refused with tolerance {t:?}: {:?}", res.err());
                    cov.hit("slippage-refused");
                }
            }
            for t in ["0.500000000000000001", "0.9", "1", "2"] {
                vensure!(run(Some(t)).is_err(), "slippage-max", "tolerance {t} accepted");
            }
        }
        Kind::Pcl => {
            // the expected LP is that of a balanced deposit of the same value at the price scale
            let c = pcl_state(p, w);
            let (x, y) = (Dd::units(a[0], p.dec[0]), Dd::units(a[1], p.dec[1]) * c.scale);
            let v = x + y;
            let exp = v / Dd::f(2.0) / c.scale.sqrt() / pcl_price(p, w, "xcp_profit_real");
            let res: Vec<_> = tols.iter().map(|t| run(*t)).collect();
            for (t, r) in tols.iter().zip(&res) {
                let t = t.map(Dd::dec).unwrap_or(Dd::dec("0.05"));
                if let Ok(got) = r {
                    // (x+y)/2/sqrt(scale) with 18-decimal roots; a deposit in proportion is exempt
                    let balanced = res[1].is_ok();
                    vensure!(balanced || Dd::units(*got + 2, 6) >= exp * (Dd::ONE - t) * (Dd::ONE - Dd::f(1e-9)), "slippage", "deposit {a:?} minted {got} against {} expected, tolerance {}", exp.raw(6).to(), t.to());
                    cov.hit("slippage-accepted");
                } else if let Ok(got) = &res[6] {
                    vensure!(Dd::units(got.saturating_sub(2), 6) < exp * (Dd::ONE - t) * (Dd::ONE + Dd::f(1e-9)), "slippage-refused", "deposit {a:?} mints {got} against {} expected, refused with tolerance {}", exp.raw(6).to(), t.to());
                    cov.hit("slippage-refused");
                }
            }
            if res[1].is_err() {
                for t in ["0.500000000000000001", "0.9", "1", "2"] {
                    vensure!(run(Some(t)).is_err(), "slippage-max", "tolerance {t} accepted");
                }
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A03",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                for s in pools::all(t).into_iter().chain(pools::ramping()) {
                    let pcl = s.cfg.kind == Kind::Pcl;
                    let mut al = s.full(&[0]);
                    al.extend(s.donations());
                    v.push(bounded(PM::new(&s.name, s.cfg.clone(), al, &[]).timed(11, 1).state(predict), if pcl { 2 } else { 3 } + t as usize));
                    if s.cfg.ramp {
                        continue;
                    }
                    let f = pools::fresh(&s);
                    v.push(bounded(PM::new(&f.name, f.cfg.clone(), f.full(&[0]), &[]).state(predict), 2));
                }
                v.push(bounded(PM::new("Trans-6-8-6", trans_cfg(), trans_alphabet(&[0]), &[]).state(predict), 3 + t as usize));
                let mut two = Cfg::new(Kind::Trans);
                two.dec = vec![6, 18];
                two.seed = vec![3_000, 9_000_000_000_000_000];
                let ops = vec![
                    Op::Swap { u: 0, i: 0, j: 1, v: 1, to: false },
                    Op::Swap { u: 0, i: 1, j: 0, v: 2_000_000_000_000, to: false },
                    Op::Provide { u: 0, a: vec![10, 0], to: false, stake: false },
                    Op::Provide { u: 0, a: vec![3, 7_000_000_000_000], to: false, stake: false },
                    Op::Withdraw { u: 0, n: 1, d: 3 },
                ];
                v.push(bounded(PM::new("Trans-6-18", two, ops, &[]).state(predict), 3 + t as usize));
                v
            },
            assumptions: &["a reverse simulation is correct up to two smallest units of the offer asset and one of the ask asset (concentrated pools deliberately assume the largest fee)"],
        },
        Prop {
            id: "A04",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                for s in pools::all(t).into_iter().chain(pools::ramping()) {
                    let pcl = s.cfg.kind == Kind::Pcl;
                    let mut al = s.full(&[0]);
                    al.extend(s.donations());
                    let cfg = Cfg { incentives: true, ..s.cfg.clone() };
                    v.push(bounded(PM::new(&s.name, cfg, al, &[]).timed(11, 1).state(limits), if pcl { 1 } else { 2 } + t as usize));
                }
                v.push(bounded(PM::new("Trans-6-8-6", trans_cfg(), trans_alphabet(&[0]), &[]).state(limits), 2 + t as usize));
                v
            },
            assumptions: &["limits are compared with the result including commission in constant-product and stable pools and after it in concentrated pools, in exact arithmetic with room for the 18-decimal ratios used by the contracts"],
        },
    ]
}
