//! A01: pool value per LP share never falls; no free lunch.
use super::pools;
use crate::curve::Dd;
use crate::engine::*;
use crate::pm::*;
use crate::pool::*;
use crate::vensure;
use cosmwasm_std::{Uint256, Uint512};

fn m4(a: u128, b: u128, c: u128, d: u128) -> Uint512 {
    Uint512::from(Uint256::from(a) * Uint256::from(b)).checked_mul(Uint512::from(Uint256::from(c) * Uint256::from(d))).expect("product")
}
/// value per share, for reporting and comparison with tolerance
pub fn vps(p: &Pool, w: &crate::world::World) -> Dd {
    value(p, w) / Dd::units(p.supply(w), lp_dec(p))
}
pub fn not_diluted(t: &Tr, cov: &mut Cov) -> Result<(), Viol> {
    if t.r.is_err() {
        return Ok(());
    }
    let p = t.p;
    let (s0, s1) = (p.supply(t.w), p.supply(t.n));
    if s0 == 0 {
        if s1 > 0 {
            cov.hit("first-deposit");
        }
        return Ok(());
    }
    vensure!(s1 > 0, "supply-zero", "LP supply returned to zero");
    let (a, b) = (p.reserves(t.w), p.reserves(t.n));
    match p.kind {
        Kind::Xyk | Kind::Tax => {
            // the swap formula divides with 18 decimals: one unit of slack only where that can matter
            let slack = if a.iter().chain(&b).all(|x| *x < 1_000_000_000_000_000_000) { 0 } else { 1 };
            let ok = m4(b[0] + slack, b[1] + slack, s0, s0) >= m4(a[0], a[1], s1, s1);
            vensure!(ok, "diluted", "value per share fell: reserves {a:?} supply {s0} -> {b:?} supply {s1}");
        }
        Kind::Stable => {
            let v0 = vps(p, t.w);
            // one smallest unit of each asset is rounding, and so is the documented 1e-6 convergence bound
            let x = xs(p, t.n);
            let up = crate::curve::stable_d(stable_ann(p, t.n), x[0] + Dd::units(1, p.dec[0]), x[1] + Dd::units(1, p.dec[1]));
            let v1 = (up + Dd::f(2e-6)) / Dd::units(s1, lp_dec(p));
            vensure!(v1 >= v0, "diluted", "value per share fell from {} to {} (reserves {a:?} supply {s0} -> {b:?} supply {s1})", v0.to(), vps(p, t.n).to());
        }
        Kind::Pcl => {
            let (c0, c1) = (pcl_state(p, t.w), pcl_state(p, t.n));
            if c0.scale_s != c1.scale_s {
                cov.hit("repeg");
                return Ok(());
            }
            let (v0, v1) = (vps(p, t.w), vps(p, t.n));
            // one unit of each asset relative to the smaller of the reserves before and after, and 1e-12 for iteration accuracy
            let tol = (0..2).fold(Dd::f(1e-12), |t, i| t + Dd::f(1.0) / Dd::u(a[i].min(b[i]))) * v0;
            let key = if pcl_below_tolerance(p, t.w) || pcl_below_tolerance(p, t.n) { "pcl-absolute-tolerance" } else { "diluted" };
            vensure!(v1 >= v0 - tol, key, "value per share fell from {} to {} (reserves {a:?} supply {s0} -> {b:?} supply {s1})", v0.to(), v1.to());
        }
        Kind::Trans => {}
    }
    cov.hit("compared");
    Ok(())
}
/// no sequence of one user's operations leaves them with more of one thing and less of none
pub fn no_free_lunch(m: &PM, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
    let p = &m.p;
    let d: Vec<i128> = p
        .toks
        .iter()
        .map(|t| t.bal(&s.w, ALICE) as i128 - t.bal(&m.w0, ALICE) as i128)
        .chain([p.lp_of(&s.w, ALICE) as i128 - p.lp_of(&m.w0, ALICE) as i128])
        .collect();
    let tol: Vec<i128> = match p.kind {
        Kind::Xyk | Kind::Tax => vec![0, 0, 0],
        // one unit per operation (at most 6), and the 1e-6 convergence bound of the curve
        _ => p.dec.iter().map(|x| if *x > 6 { 10i128.pow(*x as u32 - 6) * 6 } else { 6 }).chain([0]).collect(),
    };
    let gain = d.iter().zip(&tol).any(|(x, t)| x > t);
    let loss = d.iter().any(|x| *x < 0);
    vensure!(!gain || loss, "free-lunch", "ALICE's balances changed by {d:?} at nobody's cost");
    cov.hit(if loss { "traded" } else { "even" });
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A01",
        scenarios: |t| {
            let mut v: Vec<Box<dyn Runner>> = vec![];
            for s in pools::all(t).into_iter().chain(pools::ramping()) {
                let heavy = matches!(s.cfg.kind, Kind::Pcl | Kind::Stable);
                let mut al = s.full(&[0, 1]);
                al.extend(s.donations());
                al.push(Op::Withdraw { u: 2, n: 1, d: 1 });
                let mut m = PM::new(&s.name, s.cfg.clone(), al, &[not_diluted]);
                if heavy {
                    m = m.timed(7, 1);
                }
                let pcl = s.cfg.kind == Kind::Pcl;
                v.push(bounded(m, if pcl || s.cfg.ramp { 3 } else { 4 } + t as usize));
                let mut al = s.full(&[0]);
                al.push(Op::Swap { u: 0, i: 0, j: 1, v: s.swaps[0][s.swaps[0].len() - 1] * 4, to: false });
                let m = PM::new(&format!("{}-single", s.name), s.cfg.clone(), al, &[not_diluted]).state(no_free_lunch);
                v.push(bounded(m, if pcl || s.cfg.ramp { 4 } else if heavy { 5 } else { 6 } + t as usize));
                if s.cfg.ramp {
                    continue;
                }
                let f = pools::fresh(&s);
                let m = PM::new(&f.name, f.cfg.clone(), f.full(&[0, 1]), &[not_diluted]);
                v.push(bounded(m, if heavy { 3 } else { 4 } + t as usize));
            }
            v
        },
        assumptions: &[
            "stable pools: a decrease within one smallest unit of each asset plus the documented 1e-6 convergence bound of the invariant iteration counts as rounding",
            "concentrated pools: across a price-scale change the comparison is made by A13 instead",
        ],
    }]
}
