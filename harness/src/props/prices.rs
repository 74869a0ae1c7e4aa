//! A07: cumulative prices. A08: price observations. A09: historic pool balances.
use super::pools::{self, Sc};
use crate::curve::*;
use crate::engine::*;
use crate::pm::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde_json::{json, Value};

// ---------------------------------------------------------------- A07
/// price of asset 0 in asset 1 and the reverse, in millionths as the accumulators count them; zero for an empty pool
fn price_now(p: &Pool, w: &World) -> [Dd; 2] {
    let r = p.reserves(w);
    if r[0] == 0 || r[1] == 0 || p.supply(w) == 0 {
        return [Dd::ZERO, Dd::ZERO];
    }
    let m = Dd::f(1e6);
    match p.kind {
        Kind::Stable => {
            let x = xs(p, w);
            let ann = stable_ann(p, w);
            let d = stable_d(ann, x[0], x[1]);
            [(x[1] - stable_y(ann, d, x[0] + Dd::ONE)) * m, (x[0] - stable_y(ann, d, x[1] + Dd::ONE)) * m]
        }
        Kind::Pcl => {
            let u0 = 10u128.pow(p.dec[0] as u32);
            let v = u0.min(r[0] / 10_000).max(1);
            let got = Dd::units(p.sim(w, 0, v, None).unwrap().0, p.dec[1]);
            let x = got / Dd::units(v, p.dec[0]);
            [x * m, m / x]
        }
        _ => [Dd::u(r[1]) * m / Dd::u(r[0]), Dd::u(r[0]) * m / Dd::u(r[1])],
    }
}
fn cumulative(p: &Pool, w: &World) -> Result<[u128; 2], Viol> {
    let r = w.q(&p.addr, json!({"cumulative_prices": {}})).map_err(|e| Viol { key: "twap".into(), msg: format!("cumulative price query failed: {e}") })?;
    let mut o = [0; 2];
    for e in r["cumulative_prices"].as_array().unwrap() {
        let i = if e[0] == p.toks[0].info() { 0 } else { 1 };
        vensure!(e[0] == p.toks[i].info() && e[1] == p.toks[1 - i].info(), "twap", "unexpected entry {e}");
        o[i] = u(&e[2]);
    }
    Ok(o)
}
// reference: time of the last interaction, the integral up to it, its rounding allowance, each as [f64-free] decimal text
fn twap_aux(t: &Tr, x: &Value, cov: &mut Cov) -> Result<Value, Viol> {
    let touch = match t.op {
        Op::Provide { .. } | Op::Swap { .. } => true,
        Op::Withdraw { .. } | Op::WithdrawAbs { .. } => t.p.kind != Kind::Pcl,
        _ => false,
    };
    if !touch {
        return Ok(x.clone());
    }
    let last = x["t"].as_u64().unwrap();
    let mut c: Vec<u128> = (0..2).map(|i| x["c"][i].as_str().unwrap().parse().unwrap()).collect();
    let mut tol: Vec<u128> = (0..2).map(|i| x["e"][i].as_str().unwrap().parse().unwrap()).collect();
    let dt = t.w.time.max(last) - last;
    if dt > 0 && last > 0 {
        let pr = price_now(t.p, t.w);
        let got = cumulative(t.p, t.n)?;
        for i in 0..2 {
            let add = (pr[i] * Dd::u(dt as u128)).to() as u128;
            let mut e = slack(t.p, pr[i], dt);
            if t.p.kind == Kind::Pcl && matches!(t.op, Op::Provide { .. }) && got[i].abs_diff(c[i] + add) > tol[i] + e {
                // recorded finding: deposits use the last recorded trade price instead of the pool's price
                let lp = pcl_price(t.p, t.w, "last_price");
                let alt = if i == 0 { Dd::f(1e6) / lp } else { lp * Dd::f(1e6) };
                let alt = (alt * Dd::u(dt as u128)).to() as u128;
                if got[i].abs_diff(c[i] + alt) <= tol[i] + slack(t.p, pr[i], dt) {
                    cov.soft("pcl-deposit-last-price", format!("{:?} after {dt} s added {} of price {i} instead of {add}", t.op, got[i] - c[i]));
                    c[i] = got[i];
                    continue;
                }
            }
            e += 1;
            c[i] += add;
            tol[i] += e;
        }
        cov.hit("interval-recorded");
    } else if dt > 0 {
        cov.hit("first-interaction");
    }
    Ok(json!({"t": t.n.time.max(last), "c": [c[0].to_string(), c[1].to_string()], "e": [tol[0].to_string(), tol[1].to_string()]}))
}
/// rounding of one interval: the price has six decimals, and curve prices a few more units of error
fn slack(p: &Pool, price: Dd, dt: u64) -> u128 {
    let rel = match p.kind {
        // the probe trade is rounded to the smallest unit
        Kind::Pcl => 2e-5,
        Kind::Stable => 5e-6,
        _ => 1e-15,
    };
    let per = match p.kind {
        Kind::Xyk | Kind::Tax => 0,
        _ => 3,
    };
    (price * Dd::u(dt as u128) * Dd::f(rel)).to() as u128 + per * dt as u128 + 1
}
fn twap_state(m: &PM, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
    let (p, w) = (&m.p, &s.w);
    if p.kind == Kind::Pcl && p.supply(w) == 0 {
        return Ok(());
    }
    let got = cumulative(p, w)?;
    let last = s.x["t"].as_u64().unwrap();
    let pr = price_now(p, w);
    let dt = if last == 0 { 0 } else { w.time - last };
    for i in 0..2 {
        let c: u128 = s.x["c"][i].as_str().unwrap().parse().unwrap();
        let e: u128 = s.x["e"][i].as_str().unwrap().parse().unwrap();
        let exp = c + (pr[i] * Dd::u(dt as u128)).to() as u128;
        let tol = e + slack(p, pr[i], dt);
        vensure!(got[i].abs_diff(exp) <= tol, "twap", "cumulative price {i} is {} but the price integral is {exp} (rounding {tol}), {dt} s after the last interaction", got[i]);
    }
    cov.hit(if dt > 0 { "extended" } else { "stored" });
    Ok(())
}
fn twap_model(name: &str, cfg: Cfg, alphabet: Vec<Op>) -> PM {
    let fresh = cfg.seed.is_empty();
    let mut m = PM::new(name, cfg, alphabet, &[]);
    m.time = true;
    let c = if fresh { [0, 0] } else { cumulative(&m.p, &m.w0).ok().unwrap() };
    // accumulation starts with the first deposit (the concentrated pool's first entry is its starting price)
    let t = if fresh { 0 } else { m.w0.time };
    m.aux(json!({"t": t, "c": [c[0].to_string(), c[1].to_string()], "e": ["0", "0"]}), twap_aux).state(twap_state)
}
fn waits(v: &[u64]) -> Vec<Op> {
    v.iter().map(|s| Op::Wait { s: *s }).collect()
}
fn few(s: &Sc) -> Vec<Op> {
    let mut v = vec![
        Op::Swap { u: 0, i: 0, j: 1, v: s.swaps[0][2], to: false },
        Op::Swap { u: 0, i: 1, j: 0, v: s.swaps[1][1], to: false },
        Op::Swap { u: 0, i: 0, j: 1, v: s.swaps[0][0], to: false },
    ];
    v.extend(provides(&[0], &s.provides[..2]));
    v.extend(withdraws(&[0], &[(1, 3)]));
    v
}

// ---------------------------------------------------------------- A08
fn dec_of(v: &Value) -> Dd {
    Dd::dec(v.as_str().unwrap())
}
fn obs_aux(t: &Tr, x: &Value, cov: &mut Cov) -> Result<Value, Viol> {
    let Op::Swap { i, v, .. } = t.op else { return Ok(x.clone()) };
    let mut x = x.clone();
    let now = t.w.time;
    let cap = t.p.cfg.obs.unwrap() as usize;
    // the price waiting since an earlier trade is recorded by this one
    if let Some(pts) = x["pre"][0].as_u64() {
        let last = x["obs"].as_array().unwrap().last().map(|o| o[0].as_u64().unwrap());
        if last.map_or(now > pts, |l| pts > l) {
            let (b, q) = (dec_of(&x["pre"][1]), dec_of(&x["pre"][2]));
            let price = b / q;
            let o = x["obs"].as_array_mut().unwrap();
            let mut win: Vec<Dd> = o.iter().map(|o| dec_of(&o[1])).collect();
            win.push(price);
            let k = win.len().saturating_sub(cap);
            let win = &win[k..];
            let sma = win.iter().fold(Dd::ZERO, |a, b| a + *b) / Dd::u(win.len() as u128);
            o.push(json!([pts, text(price), text(sma)]));
            while o.len() > cap {
                o.remove(0);
                cov.hit("overwritten");
            }
            cov.hit("recorded");
        }
    }
    let tx = t.r.as_ref().unwrap();
    let ret = tx.attr_u(&t.p.addr, "return_amount").unwrap();
    let min = |k: usize, a: u128| a * 100_000 >= 10u128.pow(t.p.dec[k] as u32);
    if min(*i, *v) && min(1 - i, ret) {
        let (mut b, mut q) = if *i == 0 { (*v, ret) } else { (ret, *v) };
        if x["pre"][0].as_u64() == Some(now) {
            b += x["pre"][1].as_str().unwrap().parse::<u128>().unwrap();
            q += x["pre"][2].as_str().unwrap().parse::<u128>().unwrap();
            cov.hit("same-block");
        }
        x["pre"] = json!([now, b.to_string(), q.to_string()]);
    }
    Ok(x)
}
/// 30 significant digits
fn text(x: Dd) -> String {
    // 18 decimals are more than the contract keeps
    let n = x.raw(18);
    let i = n.to().floor();
    let s = format!("{:0>19}", i as u128);
    format!("{}.{}", &s[..s.len() - 18], &s[s.len() - 18..])
}
fn obs_state(m: &PM, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
    let (p, w) = (&m.p, &s.w);
    let obs: Vec<(u64, Dd)> = s.x["obs"].as_array().unwrap().iter().map(|o| (o[0].as_u64().unwrap(), dec_of(&o[2]))).collect();
    let pre = s.x["pre"][0].as_u64().map(|t| (t, dec_of(&s.x["pre"][1]) / dec_of(&s.x["pre"][2])));
    let mut times: Vec<u64> = vec![w.time, w.time - 1, w.time - 3, w.time - 1_000_000];
    for (k, o) in obs.iter().enumerate() {
        times.extend([o.0, o.0 + 1, o.0 - 1]);
        if let Some(n) = obs.get(k + 1) {
            times.extend([(o.0 + n.0) / 2, n.0 - 1, o.0 + (n.0 - o.0) / 3]);
        }
    }
    if let Some(t) = pre {
        times.extend([t.0, t.0 - 1]);
    }
    times.retain(|t| *t <= w.time);
    times.sort();
    times.dedup();
    for t in times {
        let exp: Option<Dd> = if obs.is_empty() {
            pre.filter(|x| x.0 <= t).map(|x| x.1)
        } else if t < obs[0].0 {
            None
        } else {
            let k = obs.iter().rposition(|o| o.0 <= t).unwrap();
            Some(match obs.get(k + 1) {
                None => obs[k].1,
                Some(n) => obs[k].1 + (n.1 - obs[k].1) * Dd::u((t - obs[k].0) as u128) / Dd::u((n.0 - obs[k].0) as u128),
            })
        };
        let got = w.q(&p.addr, json!({"observe": {"seconds_ago": w.time - t}}));
        match (&got, exp) {
            (Ok(g), Some(e)) => {
                let x = dec_of(&g["price"]);
                vensure!(g["timestamp"].as_u64() == Some(t), "observe", "asked for {t}, answered {g}");
                vensure!((x - e).abs() <= e * Dd::f(1e-12) + Dd::f(2e-15), "observe", "price at {t} (now {}) is {g}, recorded history gives {}; history {}", w.time, e.to(), s.x);
                cov.hit("answered");
            }
            (Err(_), None) => cov.hit("outside-window"),
            _ => return viol("observe", format!("price at {t} (now {}): {got:?}, expected {:?}; history {}", w.time, exp.map(|e| e.to()), s.x)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- A09
fn hist_aux(t: &Tr, x: &Value, _: &mut Cov) -> Result<Value, Viol> {
    let mut x = x.clone();
    if let Op::Wait { .. } = t.op {
        let r = t.p.reserves(t.n);
        x[t.n.height.to_string()] = json!([r[0].to_string(), r[1].to_string()]);
    }
    Ok(x)
}
fn hist_state(m: &PM, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
    let (p, w) = (&m.p, &s.w);
    let at = |i: usize, h: u64| p.w_q(w, json!({"asset_balance_at": {"asset_info": p.toks[i].info(), "block_height": h.to_string()}}));
    for i in 0..2 {
        for (h, r) in s.x.as_object().unwrap() {
            let h: u64 = h.parse().unwrap();
            let got = at(i, h)?;
            vensure!(got == r[i], "history", "balance of asset {i} at height {h} (now {}) is {got}, the pool held {} at the start of that block", w.height, r[i]);
            cov.hit("past-height");
        }
        let got = at(i, w.height + 1)?;
        vensure!(u(&got) == p.reserves(w)[i], "history", "current balance of asset {i} is {got}, the pool holds {:?}", p.reserves(w));
        // before the pool existed
        for h in [m.w0.height, m.w0.height - 1, 1] {
            let got = at(i, h)?;
            vensure!(got.is_null(), "history", "balance of asset {i} at height {h}, before tracking started: {got}");
        }
        cov.hit("before-tracking");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A07",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                for s in pools::all(t) {
                    let slow = s.cfg.kind == Kind::Pcl;
                    let mut al = few(&s);
                    al.extend(waits(&[1, 86_400]));
                    v.push(bounded(twap_model(&s.name, s.cfg.clone(), al), if slow { 4 } else { 5 } + t as usize));
                    if !slow {
                        let f = pools::fresh(&s);
                        let k = f.provides.len();
                        let mut al = provides(&[0], &f.provides[k - 2..]);
                        al.extend(few(&s));
                        al.extend(waits(&[100]));
                        v.push(bounded(twap_model(&f.name, f.cfg.clone(), al), 4 + t as usize));
                    }
                }
                v
            },
            assumptions: &["tokens sent to a pool outside its messages count from the previous interaction on and are left out", "the price is the reserve ratio (XYK), the output of offering one whole token (stable) or the average price of the contract's small probe trade (concentrated)", "amplification does not ramp meanwhile"],
        },
        Prop {
            id: "A08",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                let mut scs = pools::stable(t);
                scs.extend(pools::pcl(t));
                for s in scs {
                    let slow = s.cfg.kind == Kind::Pcl;
                    for cap in [2u32, 3] {
                        let mut c = s.cfg.clone();
                        c.obs = Some(cap);
                        let mut al = vec![
                            Op::Swap { u: 0, i: 0, j: 1, v: s.swaps[0][2], to: false },
                            Op::Swap { u: 0, i: 1, j: 0, v: s.swaps[1][1], to: false },
                            Op::Swap { u: 0, i: 0, j: 1, v: s.swaps[0][1], to: false },
                        ];
                        let x0 = json!({"pre": [null, "0", "0"], "obs": []});
                        let d = if slow { 5 } else { 6 } + cap as usize - 2 + t as usize;
                        let m = PM::new(&format!("{}-ring{cap}", s.name), c.clone(), al.clone(), &[]).timed(11, 1).aux(x0.clone(), obs_aux).state(obs_state);
                        v.push(bounded(m, d));
                        if cap == 2 {
                            // several trades in one block, trades too small to be recorded
                            al.push(Op::Swap { u: 0, i: 1, j: 0, v: 1, to: false });
                            // recordable on one side only
                            let least = [0, 1].map(|k| 10u128.pow((c.dec[k] as u32).saturating_sub(5)));
                            al.push(Op::Swap { u: 0, i: 0, j: 1, v: least[0], to: false });
                            al.extend(waits(&[6]));
                            let mut m = PM::new(&format!("{}-blocks", s.name), c, al, &[]).aux(x0, obs_aux).state(obs_state);
                            m.time = true;
                            v.push(bounded(m, if slow { 5 } else { 6 } + t as usize));
                        }
                    }
                    // longer rings, whose search takes several steps
                    for (cap, both, d) in [(8u32, false, 22), (5, true, if slow { 8 } else { 9 } + t as usize)] {
                        let mut c = s.cfg.clone();
                        c.obs = Some(cap);
                        let mut al = vec![Op::Swap { u: 0, i: 0, j: 1, v: s.swaps[0][1], to: false }];
                        if both {
                            al.push(Op::Swap { u: 0, i: 1, j: 0, v: s.swaps[1][1], to: false });
                        }
                        let x0 = json!({"pre": [null, "0", "0"], "obs": []});
                        v.push(bounded(PM::new(&format!("{}-ring{cap}", s.name), c, al, &[]).timed(11, 1).aux(x0, obs_aux).state(obs_state), d));
                    }
                }
                v
            },
            assumptions: &["the ring buffer is explored with capacities 2, 3, 5 and 8 instead of 3000", "a block's trades are recorded by the next trade"],
        },
        Prop {
            id: "A09",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                for s in pools::all(t) {
                    if s.cfg.kind == Kind::Stable {
                        continue;
                    }
                    let slow = s.cfg.kind == Kind::Pcl;
                    let mut c = s.cfg.clone();
                    c.track = true;
                    if !slow && c.fee_addr {
                        // fees that show in small trades
                        c.fee = 1000;
                        c.maker = 5000;
                    }
                    // the pool starts empty so that the first deposit is part of the history
                    let f = pools::fresh(&Sc { cfg: c, ..s.clone() });
                    let k = f.provides.len();
                    let mut al = provides(&[0], &[f.provides[k - 2], f.provides[0]]);
                    al.push(Op::Swap { u: 0, i: 0, j: 1, v: *s.swaps[0].last().unwrap(), to: false });
                    al.push(Op::Swap { u: 0, i: 1, j: 0, v: *s.swaps[1].last().unwrap(), to: false });
                    al.extend(withdraws(&[0], &[(1, 3)]));
                    al.extend(waits(&[6]));
                    let mut m = PM::new(&s.name, f.cfg.clone(), al, &[]).aux(json!({}), hist_aux).state(hist_state);
                    m.time = true;
                    v.push(bounded(m, if slow { 5 } else { 6 } + t as usize));
                }
                v
            },
            assumptions: &["tokens sent to a pool outside its messages show in its history from the next interaction on"],
        },
    ]
}
