//! A13: the price scale of concentrated pools.
use crate::curve::*;
use crate::engine::*;
use crate::pm::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde_json::Value;

/// the stored price state (its layout is kept across contract upgrades)
struct Ps {
    oracle: Dd,
    last: Dd,
    scale: Dd,
    profit: Dd,
    real: Dd,
    upd: u64,
    raw: Value,
}
fn ps(p: &Pool, w: &World) -> Ps {
    let c: Value = serde_json::from_slice(&w.contracts[p.addr.as_str()].storage[b"config".as_slice()]).unwrap();
    let s = &c["pool_state"]["price_state"];
    let g = |k: &str| Dd::dec(s[k].as_str().unwrap());
    Ps { oracle: g("oracle_price"), last: g("last_price"), scale: g("price_scale"), profit: g("xcp_profit"), real: g("xcp_profit_real"), upd: s["last_price_update"].as_u64().unwrap(), raw: s.clone() }
}
/// virtual price of one LP token at a given price scale
fn virt(p: &Pool, w: &World, scale: Dd) -> Dd {
    let c = pcl_state(p, w);
    let x = xs(p, w);
    let d = crypto_d(c.amp, c.gamma, x[0], x[1] * scale);
    d / (Dd::f(2.0) * scale.sqrt()) / Dd::units(p.supply(w), 6)
}
fn rel(a: Dd, b: Dd) -> f64 {
    ((a - b) / b).to().abs()
}
const EPS: f64 = 1e-9;
pub fn repeg(t: &Tr, cov: &mut Cov) -> Result<(), Viol> {
    let Ok(tx) = &t.r else {
        // the price update must not get in the way of a trade the pool quotes well within the spread limit
        if let Op::Swap { i, v, .. } = t.op {
            if let Ok((ret, spread, _)) = t.p.sim(t.w, *i, *v, None) {
                vensure!(spread > ret / 3, "refused", "{:?}, quoted {ret} with spread {spread}, is refused: {:?}", t.op, t.r.as_ref().err());
            }
        }
        return Ok(());
    };
    let (p, w, n) = (t.p, t.w, t.n);
    if matches!(t.op, Op::Wait { .. }) {
        return Ok(());
    }
    let (a, b) = (ps(p, w), ps(p, n));
    let reg: Value = p.config_params(w);
    let (x0, x1) = (xs(p, w), xs(p, n));
    let now = w.time;
    if p.supply(w) == 0 {
        vensure!((b.real.to(), b.profit.to()) == (1.0, 1.0), "repeg", "first deposit starts with profit {} and {}", b.profit.to(), b.real.to());
        return Ok(());
    }
    // does this operation trade enough to update the price?
    let min = Dd::f(1e-5);
    let price = match t.op {
        Op::Swap { .. } => {
            let (d0, d1) = ((x1[0] - x0[0]).abs(), (x1[1] - x0[1]).abs());
            if d0 < min || d1 < min { None } else { Some((d0 / d1, Dd::f(1e-12))) }
        }
        Op::Provide { .. } => {
            let share = Dd::units(tx.attr_u(&p.addr, "share").unwrap(), 6);
            let r = share / (Dd::units(p.supply(w), 6) + share);
            let d: Vec<Dd> = (0..2).map(|i| ((x1[i] - x0[i]) - x1[i] * r).abs()).collect();
            // the minted share is only known rounded
            let e: Vec<Dd> = (0..2).map(|i| x1[i] * Dd::f(2e-6) / Dd::units(p.supply(w), 6) + Dd::f(1e-12)).collect();
            if d[0] + e[0] < min || d[1] + e[1] < min {
                None
            } else if d[0] - e[0] < min || d[1] - e[1] < min {
                cov.hit("undecided");
                return Ok(());
            } else {
                Some((d[0] / d[1], e[0] / d[0] + e[1] / d[1] + Dd::f(1e-12)))
            }
        }
        _ => None,
    };
    let keep = |k: &str| b.raw[k] == a.raw[k];
    let Some((price, err)) = price else {
        for k in ["oracle_price", "last_price", "price_scale", "last_price_update", "xcp_profit"] {
            vensure!(keep(k), "repeg", "{:?} changed {k} from {} to {}", t.op, a.raw[k], b.raw[k]);
        }
        if matches!(t.op, Op::Withdraw { .. } | Op::WithdrawAbs { .. }) {
            let v = virt(p, n, b.scale);
            vensure!(rel(b.real, v) < EPS, "virtual-price", "withdrawal left the virtual price at {} instead of {}", b.real.to(), v.to());
            vensure!(b.real.to() >= a.real.to() - 1e-12, "virtual-price", "withdrawal lowered the virtual price from {} to {}", a.real.to(), b.real.to());
            cov.hit("withdrawn");
        } else {
            vensure!(keep("xcp_profit_real"), "repeg", "{:?} changed the virtual price", t.op);
            cov.hit("no-price-update");
        }
        return Ok(());
    };
    // the oracle price follows the past trade prices, once per block
    let oracle = if a.upd < now {
        let half = reg["ma_half_time"].as_u64().unwrap() as f64;
        let alpha = Dd::f(0.5f64.powf((now - a.upd) as f64 / half));
        cov.hit("oracle-moved");
        a.last * (Dd::ONE - alpha) + a.oracle * alpha
    } else {
        cov.hit("same-block");
        a.oracle
    };
    vensure!(rel(b.oracle, oracle) < EPS, "oracle", "{} s after the last trade the oracle price moved from {} (last trade {}) to {} instead of {}", now - a.upd, a.oracle.to(), a.last.to(), b.oracle.to(), oracle.to());
    vensure!(b.upd == a.upd.max(now), "oracle", "update time {}", b.upd);
    vensure!(((b.last - price) / price).abs() < err + Dd::f(1e-9), "oracle", "last trade price is recorded as {} instead of {}", b.last.to(), price.to());
    // profit bookkeeping
    let real = virt(p, n, a.scale);
    let profit = a.profit * real / a.real;
    vensure!(rel(b.profit, profit) < EPS, "profit", "profit is recorded as {} instead of {}", b.profit.to(), profit.to());
    let f = |k: &str| Dd::dec(reg[k].as_str().unwrap());
    let norm = (b.oracle / a.scale - Dd::ONE).abs();
    let step = { let x = norm / Dd::f(10.0); if x > f("min_price_scale_delta") { x } else { f("min_price_scale_delta") } };
    let gain = real - Dd::ONE - (b.profit - Dd::ONE) / Dd::f(2.0) - f("repeg_profit_threshold");
    let target = if norm.to() > 0.0 { (a.scale * (norm - step) + step * b.oracle) / norm } else { a.scale };
    if keep("price_scale") {
        vensure!(rel(b.real, real) < EPS, "virtual-price", "virtual price recorded as {} instead of {}", b.real.to(), real.to());
        vensure!(b.real >= a.real, "virtual-price", "{:?} lowered the virtual price from {} to {}", t.op, a.real.to(), b.real.to());
        // it has to move where the profit clearly pays for it
        if norm > step + Dd::f(1e-12) && gain > Dd::f(EPS) {
            let r = virt(p, n, target);
            vensure!(Dd::f(2.0) * r < b.profit + Dd::ONE + Dd::f(EPS), "repeg", "price scale {} stays although moving to {} (oracle {}) leaves a virtual price of {} with profit {}", a.scale.to(), target.to(), b.oracle.to(), r.to(), b.profit.to());
            cov.hit("repeg-unaffordable");
        }
        cov.hit(if norm < step { "near-oracle" } else { "too-little-profit" });
    } else {
        vensure!(norm >= step && gain > Dd::f(-EPS), "repeg", "price scale moved from {} to {} without a sufficient profit: virtual price {}, profit {}, distance {}, least step {}", a.scale.to(), b.scale.to(), real.to(), b.profit.to(), norm.to(), step.to());
        vensure!(rel(b.scale, target) < 1e-12, "repeg", "price scale moved from {} to {} instead of {} (oracle {})", a.scale.to(), b.scale.to(), target.to(), b.oracle.to());
        let r = virt(p, n, b.scale);
        vensure!(rel(b.real, r) < EPS, "virtual-price", "virtual price recorded as {} instead of {}", b.real.to(), r.to());
        vensure!(Dd::f(2.0) * r > b.profit + Dd::ONE - Dd::f(EPS), "repeg", "a move of the price scale dropped the virtual price to {} with profit {}", r.to(), b.profit.to());
        cov.hit(if b.scale > a.scale { "repeg-up" } else { "repeg-down" });
    }
    vensure!(b.real.to() >= 1.0 - 1e-12, "virtual-price", "virtual price {} below one", b.real.to());
    let q = p.w_q(n, serde_json::json!({"lp_price": {}}))?;
    vensure!(rel(Dd::dec(q.as_str().unwrap()), b.real) < EPS, "virtual-price", "lp_price is {q}, virtual price {}", b.real.to());
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A13",
        scenarios: |t| {
            let d = t as usize;
            let mut v: Vec<Box<dyn Runner>> = vec![];
            let base = || {
                let mut c = Cfg::new(Kind::Pcl);
                c.seed = vec![2_000_000_000_000, 1_000_000_000_000];
                c
            };
            let mut cfgs = vec![("default", base())];
            let mut c = base();
            c.pcl.half = 60;
            c.pcl.mid_fee = "0.005".into();
            c.pcl.out_fee = "0.01".into();
            c.pcl.threshold = "0".into();
            c.pcl.delta = "0".into();
            cfgs.push(("eager", c));
            let mut c = base();
            c.pcl.amp = "5".into();
            c.pcl.gamma = "0.02".into();
            c.pcl.threshold = "0.0005".into();
            c.pcl.delta = "0.02".into();
            c.pcl.price_scale = "0.5".into();
            c.seed = vec![500_000_000_000, 1_000_000_000_000];
            c.maker = 10_000;
            c.share = 500;
            cfgs.push(("wide", c));
            for (name, c) in cfgs {
                let k = |i: usize, n: u128| c.seed[i] / 1000 * n;
                let sw = |i: usize, v: u128| Op::Swap { u: 0, i, j: 1 - i, v, to: false };
                let mut al = vec![sw(0, k(0, 200)), sw(0, k(0, 30)), sw(1, k(1, 150)), sw(1, 9)];
                al.extend(provides(&[0], &[[k(0, 100), k(1, 20)], [k(0, 10), k(1, 10)]]));
                al.extend(withdraws(&[0, 2], &[(1, 2)]));
                // one block per operation
                v.push(bounded(PM::new(&format!("{name}-blocks"), c.clone(), al.clone(), &[repeg]).timed(30, 1), 5 + d));
                // any spacing
                let mut al = vec![sw(0, k(0, 200)), sw(1, k(1, 150)), sw(1, k(1, 10))];
                al.extend(provides(&[0], &[[k(0, 100), k(1, 20)]]));
                al.extend([Op::Wait { s: 17 }, Op::Wait { s: 600 }, Op::Wait { s: 100_000 }]);
                let mut m = PM::new(&format!("{name}-times"), c.clone(), al, &[repeg]);
                m.time = true;
                v.push(bounded(m, 5 + d));
                // long alternating trade: few choices, many steps
                let al = vec![sw(0, k(0, 150)), sw(1, k(1, 140))];
                v.push(bounded(PM::new(&format!("{name}-long"), c.clone(), al, &[repeg]).timed(200, 1), 10 + d));
            }
            let mut c = base();
            c.seed = vec![];
            let al = provides(&[0], &[[2_000_000_000, 1_000_000_000], [3_000_000, 900_000_000]]);
            v.push(bounded(PM::new("first-deposit", c, al, &[repeg]).timed(6, 1), 3));
            v
        },
        assumptions: &["virtual prices are compared with an independent solver within 1e-9", "amplification and gamma do not ramp meanwhile"],
    }]
}
