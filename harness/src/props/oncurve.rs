//! A14: swap prices lie on the pool's published curve. No execution: reserves are set, the pool is asked.
use super::ops::fees;
use super::tax::xyk_gross;
use crate::curve::*;
use crate::engine::*;
use crate::pm::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    dec: [u8; 2],
    amp: String,
    gamma: String,
    scale: String,
    fees: [String; 3],
    /// ramp to these curve parameters, of which this part of the time has passed
    ramp: Option<(String, String, u64)>,
    /// sizes in whole tokens
    sizes: Vec<f64>,
    /// reserves relative to the balanced pool
    ratios: Vec<[f64; 2]>,
    /// offers relative to the reserve of the offered asset
    offers: Vec<f64>,
}
fn set_reserves(p: &Pool, w: &mut World, r: [u128; 2]) {
    for i in 0..2 {
        w.set_bal(&p.addr, p.toks[i].id(), r[i]);
    }
}
struct Out {
    ret: u128,
    comm: u128,
}
impl Out {
    fn gross(&self) -> u128 {
        self.ret + self.comm
    }
}
/// reference gross output (whole tokens), its tolerance (smallest units of the asked asset), and for a
/// concentrated pool the fee rate
struct Ref {
    gross: Dd,
    tol: f64,
    fee: Option<Dd>,
    /// the iterations stop away from the root (the recorded finding)
    stopped: bool,
    /// 18-decimal rounding is coarser than the iterations' stopping rule
    noisy: bool,
}
fn reference(p: &Pool, w: &World, r: [u128; 2], i: usize, v: u128) -> Ref {
    let j = 1 - i;
    let x = [Dd::units(r[0], p.dec[0]), Dd::units(r[1], p.dec[1])];
    let dv = Dd::units(v, p.dec[i]);
    match p.kind {
        Kind::Stable => {
            let ann = stable_ann(p, w);
            let d = stable_d(ann, x[0], x[1]);
            let y = stable_y(ann, d, x[i] + dv);
            // both iterations stop after a step of at most s = 1e-6 tokens, which leaves s^2 times the bend of the
            // function, 2/D and 1/y at most, and never more than s; then 18-decimal arithmetic
            let res = x[0] + x[1] + dv;
            let dd = Dd::f(2e-12) / d;
            let moved = (stable_y(ann, d + dd, x[i] + dv) - y).abs();
            let step = Dd::f(1e-12) / y;
            let step = if step > Dd::f(1e-6) { Dd::f(1e-6) } else { step };
            let e = moved + step + res * Dd::f(1e-15);
            Ref { gross: x[j] - y, tol: 2.0 + e.raw(p.dec[j]).to(), fee: None, stopped: false, noisy: false }
        }
        Kind::Pcl => {
            let c = pcl_state(p, w);
            let s = c.scale;
            let mut xs = [x[0], x[1] * s];
            let d = crypto_d(c.amp, c.gamma, xs[0], xs[1]);
            let (dn, dok) = crypto_d_iter(c.amp, c.gamma, xs[0], xs[1]);
            // 18-decimal products with gamma squared
            let k2 = Dd::ONE + Dd::f(4e-18) / (c.gamma * c.gamma * c.amp) + Dd::f(4e-18) / (c.gamma * c.gamma);
            let d2 = crypto_d(c.amp * k2, c.gamma, xs[0], xs[1]);
            xs[i] = xs[i] + if i == 1 { dv * s } else { dv };
            let y = crypto_y(c.amp, c.gamma, d, xs[i]);
            let gross = (xs[j] - y) / if j == 1 { s } else { Dd::ONE };
            let was = xs[j];
            xs[j] = y;
            let sum = xs[0] + xs[1];
            let k = Dd::f(4.0) * xs[0] * xs[1] / (sum * sum);
            let mut k = c.fee_gamma / (c.fee_gamma + Dd::ONE - k);
            if k <= Dd::dec("0.001") {
                k = Dd::ZERO;
            }
            // the iterations' distance from the root, and the effect of rounding
            let (yn, yok) = crypto_y_iter(c.amp, c.gamma, if dok { dn } else { d }, xs[i]);
            let off = if dok && yok { (yn - y).abs() } else { Dd::f(1e30) };
            let per = if j == 1 { s } else { Dd::ONE };
            let e = (crypto_y(c.amp * k2, c.gamma, d, xs[i]) - y).abs() + (crypto_y(c.amp, c.gamma, d2, xs[i]) - y).abs() + Dd::f(1e-14) * sum + Dd::f(1e-12);
            let noisy = e > Dd::f(1e-6) || k2 > Dd::f(1.001);
            let off = (off / per).raw(p.dec[j]);
            let stopped = yn >= was || off > Dd::ONE && off / Dd::u(10u128.pow(p.dec[j] as u32)) > gross.abs() * Dd::f(1e-9);
            Ref { gross, tol: 2.0 + (e / per).raw(p.dec[j]).to() + if stopped { 0.0 } else { off.to() }, fee: Some(k * c.mid + (Dd::ONE - k) * c.out), stopped, noisy }
        }
        _ => Ref { gross: Dd::units(xyk_gross(r[i], r[j], v), p.dec[j]), tol: 0.01, fee: None, stopped: false, noisy: false },
    }
}
#[allow(clippy::too_many_arguments)]
fn trade(c: &Case, p: &Pool, w: &World, r: [u128; 2], i: usize, v: u128, total: u128, last: &mut (u128, u128, f64), cov: &mut Cov) -> Result<(), Viol> {
    let j = 1 - i;
    let f = reference(p, w, r, i, v);
    let key = if f.stopped { "pcl-absolute-tolerance" } else { "" };
                    let at = |what: &str| format!("{:?} {:?} amp {} gamma {} scale {} reserves {r:?}: offering {v} of asset {i} {what}", c.kind, c.dec, c.amp, c.gamma, c.scale);
                    let k = |d: &str| if key.is_empty() { d.to_string() } else { key.to_string() };
                    let (ret, comm) = match quiet(|| p.sim(w, i, v, None)).map_err(|e| e.to_string()).and_then(|x| x) {
                        Ok((a, _, b)) => (a, b),
                        Err(e) => {
                            cov.hit(&format!("no-price {:?}", c.kind));
                            if std::env::var("MC_ERR").is_ok() {
                                eprintln!("{}", at(&e));
                            }
                            if f.noisy && !f.stopped {
                cov.soft("pcl-no-convergence", at(&e));
                return Ok(());
            }
            // worth next to nothing within rounding
            if f.gross.raw(p.dec[j]).to() <= f.tol * 100.0 {
                cov.hit("dust-refused");
                return Ok(());
            }
            return viol(&k("no-price"), at(&format!("gives no price: {e}")));
                        }
                    };
                    let o = Out { ret, comm };
                    let g = o.gross();
                    let err = (Dd::u(g) - f.gross.raw(p.dec[j])).to();
                    if std::env::var("MC_MAX").is_ok() && key.is_empty() && (err.abs() - 2.0) / f.tol > 0.1 {
                        eprintln!("{:.3} {}", err / f.tol, at(&format!("gives {g}, curve {} tol {}", f.gross.raw(p.dec[j]).to(), f.tol)));
                    }
                    let below = match c.kind {
                        Kind::Pcl => 2.0,
                        Kind::Stable => 1.0,
                        _ => 0.0,
                    };
                    vensure!(err <= f.tol && err >= -f.tol - below, &k("curve"), "{}", at(&format!("gives {g}, the curve {} (tolerance {})", f.gross.raw(p.dec[j]).to(), f.tol)));
                    if c.kind == Kind::Stable && g == r[j] && f.gross.raw(p.dec[j]) + Dd::ONE > Dd::u(r[j]) {
        cov.soft("stable-last-unit", at("takes the whole reserve"));
    } else {
        vensure!(g < r[j], "emptied", "{}", at(&format!("takes the whole reserve ({g})")));
    }
                    // more in, more out
                    vensure!(g as f64 + f.tol + last.2 >= last.1 as f64, &k("monotone"), "{}", at(&format!("gives {g}, offering {} gives {}", last.0, last.1)));
                    cov.hit(if g > last.1 { "grows" } else { "equal" });
                    *last = (v, g, f.tol);
                    // the fee
                    match f.fee {
                        None => {
                            let e = mul_div(g, total, 10_000);
                            vensure!(comm == e, "fee", "{}", at(&format!("charges {comm} instead of {e}")));
                        }
                        Some(rate) => {
                            let e = (Dd::u(g) * rate).to();
                            let tol = 2.0 + g as f64 * 1e-9 + f.tol * 0.02;
                            vensure!((comm as f64 - e).abs() <= tol, &k("fee"), "{}", at(&format!("charges {comm} of {g} instead of {e} (rate {})", rate.to())));
                            let (lo, hi) = (pcl_state(p, w).mid, pcl_state(p, w).out);
                            let q = Dd::u(g);
                            vensure!(Dd::u(comm + 2) >= q * lo && Dd::u(comm.saturating_sub(2)) <= q * hi, "fee-range", "{}", at(&format!("charges {comm} of {g}, outside the configured range")));
                            cov.hit("dynamic-fee");
                        }
                    }
                    // two fee-free trades never pay more than one
                    if v >= 2 {
                        let a = v / 3 + 1;
                        if let (Ok(x), true) = (p.sim(w, i, a, None), a < v) {
                            let g1 = x.0 + x.2;
                            let mut n = w.clone();
                            let mut r2 = r;
                            r2[i] += a;
                            r2[j] -= g1;
                            if r2[j] > 0 {
                                set_reserves(p, &mut n, r2);
                                if let Ok(y) = p.sim(&n, i, v - a, None) {
                                    let g2 = y.0 + y.2;
                                    let (fa, fb) = (reference(p, w, r, i, a), reference(p, &n, r2, i, v - a));
                    let slack = if p.kind == Kind::Xyk || p.kind == Kind::Tax { 1.0 } else { f.tol + fa.tol + fb.tol + 2.0 };
                                    let key2 = if fa.stopped || fb.stopped { "pcl-absolute-tolerance".to_string() } else { k("split") };
                                    vensure!((g1 + g2) as f64 <= g as f64 + slack, &key2, "{}", at(&format!("gives {g}, in two trades of {a} and {} {}", v - a, g1 + g2)));
                                    cov.hit("split");
                                }
                            }
                        }
                    }
                    Ok(())
}
fn run(c: &Case, cov: &mut Cov) -> Result<(), Viol> {
    let mut cfg = Cfg::new(c.kind);
    cfg.dec = c.dec.to_vec();
    cfg.fee = 30;
    if c.kind == Kind::Stable {
        cfg.amp = c.amp.parse().unwrap();
    }
    if c.kind == Kind::Pcl {
        cfg.pcl.amp = c.amp.clone();
        cfg.pcl.gamma = c.gamma.clone();
        cfg.pcl.price_scale = c.scale.clone();
        cfg.pcl.mid_fee = c.fees[0].clone();
        cfg.pcl.out_fee = c.fees[1].clone();
        cfg.pcl.fee_gamma = c.fees[2].clone();
    }
    let scale: f64 = c.scale.parse().unwrap();
    let one = [10f64.powi(c.dec[0] as i32), 10f64.powi(c.dec[1] as i32)];
    cfg.seed = vec![(1e6 * one[0]) as u128, (1e6 / scale * one[1]) as u128];
    let (mut w, p) = build(&cfg);
    if let Some((amp, gamma, part)) = &c.ramp {
        w.advance(200_000, 1);
        let t = w.time + 10_000_000;
        let m = if c.kind == Kind::Stable { json!({"start_changing_amp": {"next_amp": amp.parse::<u64>().unwrap(), "next_amp_time": t}}) } else { json!({"promote": {"next_amp": amp, "next_gamma": gamma, "future_time": t}}) };
        p.update(&mut w, OWNER, m).map_err(|e| Viol { key: "setup".into(), msg: e })?;
        w.advance(10_000_000 * part / 100, 1);
    }
    let total = fees(&p, &w).total;
    for size in &c.sizes {
        for ratio in &c.ratios {
            let r = [(size * one[0] * ratio[0]) as u128, (size / scale * one[1] * ratio[1]) as u128];
            if r[0] < 2 || r[1] < 2 {
                continue;
            }
            set_reserves(&p, &mut w, r);
            for i in 0..2 {
                let mut last = (0u128, 0u128, 0.0);
                let mut vs: Vec<u128> = c.offers.iter().map(|f| (r[i] as f64 * f) as u128).filter(|v| *v > 0).collect();
                vs.insert(0, 1);
                vs.sort();
                vs.dedup();
                for v in vs {
                    match trade(c, &p, &w, r, i, v, total, &mut last, cov) {
                        // the recorded finding: nothing more can be said about this trade
                        Err(v) if v.key == "pcl-absolute-tolerance" => cov.soft(&v.key, v.msg),
                        x => x?,
                    }
                }
            }
        }
    }
    Ok(())
}
fn s(x: &[&str]) -> Vec<String> {
    x.iter().map(|x| x.to_string()).collect()
}
fn cases(t: bool) -> Vec<(&'static str, Vec<Case>)> {
    let ratios = vec![[1.0, 1.0], [1.0, 0.93], [0.6, 1.0], [1.0, 0.2], [0.07, 1.0]];
    let far = vec![[1.0, 0.004], [0.0003, 1.0]];
    let mut offers = vec![1e-9, 1e-6, 0.0001, 0.003, 0.05, 0.4, 1.0, 3.0];
    if t {
        offers.extend([1e-7, 0.00003, 0.001, 0.01, 0.02, 0.1, 0.2, 0.7, 1.5, 2.0]);
    }
    let base = |kind: Kind, dec: [u8; 2]| Case {
        kind,
        dec,
        amp: "100".into(),
        gamma: "0.000145".into(),
        scale: "1".into(),
        fees: ["0.0026".into(), "0.0045".into(), "0.00023".into()],
        ramp: None,
        sizes: if t { vec![0.01, 1.0, 1234.5, 1e6, 1e9] } else { vec![0.01, 1.0, 12345.6, 1e9] },
        ratios: ratios.iter().chain(&far).cloned().collect(),
        offers: offers.iter().cloned().chain([30.0, 1000.0]).collect(),
    };
    let decs: Vec<[u8; 2]> = if t { vec![[6, 6], [6, 18], [18, 6], [8, 6], [18, 18], [0, 6]] } else { vec![[6, 6], [18, 6]] };
    let mut v = vec![];
    let mut xyk = vec![];
    for kind in [Kind::Xyk, Kind::Tax] {
        for dec in &decs {
            let mut c = base(kind, *dec);
            c.sizes.push(0.0001);
            xyk.push(c);
        }
    }
    v.push(("constant-product", xyk));
    let mut st = vec![];
    for dec in &decs {
        for amp in ["1", "7", "100", "2000", "1000000"] {
            let mut c = base(Kind::Stable, *dec);
            c.amp = amp.into();
            st.push(c);
        }
    }
    for (amp, to, part) in [("100", "900", 50), ("100", "20", 30), ("100", "700", 100)] {
        let mut c = base(Kind::Stable, [6, 6]);
        c.amp = amp.into();
        c.ramp = Some((to.into(), String::new(), part));
        st.push(c);
    }
    v.push(("stableswap", st));
    let mut pc = vec![];
    let gammas: &[&str] = if t { &["0.00000001", "0.000001", "0.0001", "0.000145", "0.003", "0.02"] } else { &["0.000001", "0.000145", "0.02"] };
    let amps: &[&str] = if t { &["0.1", "3", "40", "500", "10000", "100000"] } else { &["0.1", "40", "2000"] };
    let scales: &[&str] = if t { &["0.0005", "1", "2.5", "4000"] } else { &["0.04", "2.5"] };
    for dec in &decs {
        for g in gammas {
            for a in amps {
                for (k, sc) in scales.iter().enumerate() {
                    if !t && (dec[0] == 6) != (k == 1) {
                        continue;
                    }
                    let mut c = base(Kind::Pcl, *dec);
                    (c.amp, c.gamma, c.scale) = (a.to_string(), g.to_string(), sc.to_string());
                    c.offers = offers.clone();
                    c.ratios = ratios.clone();
                    pc.push(c);
                }
            }
        }
    }
    for f in [s(&["0.00005", "0.01", "0.1"]), s(&["0.005", "0.0051", "0.0000001"]), s(&["0.001", "0.002", "1"])] {
        let mut c = base(Kind::Pcl, [6, 6]);
        c.amp = "40".into();
        c.fees = [f[0].clone(), f[1].clone(), f[2].clone()];
        c.offers = offers.clone();
        c.ratios = ratios.clone();
        pc.push(c);
    }
    for (a, g, part) in [("300", "0.00005", 50), ("10", "0.001", 25), ("200", "0.0002", 100)] {
        let mut c = base(Kind::Pcl, [6, 6]);
        c.amp = "40".into();
        c.ramp = Some((a.into(), g.into(), part));
        c.offers = offers.clone();
        c.ratios = ratios.clone();
        pc.push(c);
    }
    v.push(("cryptoswap", pc));
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A14",
        scenarios: |t| {
            let split = |c: Vec<Case>| -> Vec<Case> { c.into_iter().flat_map(|c| c.sizes.clone().into_iter().map(move |s| Case { sizes: vec![s], ..c.clone() })).collect() };
            cases(t).into_iter().map(|(n, c)| grid(n, split(c), run)).collect()
        },
        assumptions: &["prices are read through the simulation query, which A03 ties to execution", "reference invariants solved by bisection in double-double arithmetic"],
    }]
}
