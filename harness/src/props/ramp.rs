//! A10: changes of curve parameters.
use crate::curve::*;
use crate::engine::*;
use crate::pm::{stable_ann, xs};
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

const STRANGER: &str = ALICE;
const HEIR: &str = CAROL;
const DAY: u64 = 86_400;

/// how the target is chosen from the value in force
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum To {
    Up10,
    Above10,
    Down10,
    Below10,
    Half,
    Same,
    Max,
    OverMax,
    Min,
    UnderMin,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// amplification (and gamma) targets, duration in seconds
    Start { who: u8, amp: To, gamma: To, dt: u64 },
    Stop { who: u8 },
    Upd { who: u8, p: Value },
    Wait { s: u64 },
}
/// reference of one ramping value
#[derive(Clone, Debug, Serialize)]
struct Ramp {
    from: Dec,
    to: Dec,
}
type Dec = String;
#[derive(Clone)]
struct S {
    w: World,
    amp: Ramp,
    gamma: Ramp,
    t0: u64,
    t1: u64,
    /// earliest time of the next start
    next: u64,
    params: Value,
}
struct M {
    name: String,
    w0: World,
    p: Arc<Pool>,
    owner: &'static str,
    ops: Vec<Op>,
}
fn who(x: u8, owner: &'static str) -> &'static str {
    match x {
        0 => owner,
        1 => STRANGER,
        _ => {
            if owner == OWNER {
                HEIR
            } else {
                OWNER
            }
        }
    }
}
fn at(r: &Ramp, t0: u64, t1: u64, t: u64) -> Dd {
    let (a, b) = (Dd::dec(&r.from), Dd::dec(&r.to));
    if t >= t1 || t1 == t0 {
        return b;
    }
    a + (b - a) * Dd::u((t - t0) as u128) / Dd::u((t1 - t0) as u128)
}
/// 18 decimals, in units of 1e-18
fn raw(s: &str) -> u128 {
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    i.parse::<u128>().unwrap() * 10u128.pow(18) + format!("{f:0<18}").parse::<u128>().unwrap()
}
fn txt(v: u128) -> String {
    cosmwasm_std::Decimal::raw(v).to_string()
}
const E18: u128 = 1_000_000_000_000_000_000;
/// target in 1e-18 units, and whether it is allowed
fn target(cur: u128, k: To, min: u128, max: u128, grain: u128) -> (u128, bool) {
    let up = |x: u128| x.div_ceil(grain) * grain;
    let dn = |x: u128| x / grain * grain;
    let v = match k {
        To::Up10 => dn(cur * 10),
        To::Above10 => dn(cur * 10) + grain.max(cur / 1000),
        To::Down10 => up(cur.div_ceil(10)),
        To::Below10 => up(cur.div_ceil(10)).saturating_sub(grain.max(cur / 100_000)),
        To::Half => up(cur / 2),
        To::Same => dn(cur),
        To::Max => max,
        To::OverMax => max + grain,
        To::Min => min,
        To::UnderMin => min - grain,
    };
    // the ratio is computed with 18 decimals
    let within = v > 0 && v >= min && v <= max && v <= cur * 10 && v.saturating_mul(10) >= cur;
    (v, within)
}
const LIM: [(&str, u128, u128); 6] = [
    ("mid_fee", 50_000_000_000_000, 10_000_000_000_000_000),
    ("out_fee", 50_000_000_000_000, 10_000_000_000_000_000),
    ("fee_gamma", 0, E18),
    ("repeg_profit_threshold", 0, 10_000_000_000_000_000),
    ("min_price_scale_delta", 0, E18),
    ("ma_half_time", 1, 604_800),
];
impl M {
    fn limits(&self) -> [(u128, u128, u128); 2] {
        match self.p.kind {
            Kind::Stable => [(E18, 1_000_000 * E18, E18), (0, u128::MAX / 100, 1)],
            _ => [(E18 / 10, 100_000 * E18, 1), (10_000_000_000, 20_000_000_000_000_000, 1)],
        }
    }
    /// the values in force according to the pool
    fn cur(&self, w: &World) -> (u128, u128) {
        let c = self.p.config_params(w);
        (raw(c["amp"].as_str().unwrap()), c["gamma"].as_str().map(raw).unwrap_or(0))
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        let (a, g) = self.cur(&self.w0);
        let c = self.p.config_params(&self.w0);
        let mut params = json!({});
        for (k, _, _) in LIM {
            params[k] = c[k].clone();
        }
        let r = |v| Ramp { from: txt(v), to: txt(v) };
        // a change may start a day after the pool was created (stable); concentrated pools count from zero
        let next = if self.p.kind == Kind::Stable { START + DAY } else { 0 };
        S { w: self.w0.clone(), amp: r(a), gamma: r(g), t0: 0, t1: 0, next, params }
    }
    fn ops(&self, _: &S, _: usize) -> Vec<Op> {
        self.ops.clone()
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        let p = &self.p;
        let (x, msg, ok) = match op {
            Op::Wait { s } => {
                n.w.advance(*s, 1);
                return Ok(Some(n));
            }
            Op::Start { who: x, amp, gamma, dt } => {
                let (ca, cg) = self.cur(&s.w);
                let l = self.limits();
                let (a, oka) = target(ca, *amp, l[0].0, l[0].1, l[0].2);
                let (g, okg) = target(cg, *gamma, l[1].0, l[1].1, l[1].2);
                let t = s.w.time + dt;
                let okt = *dt >= DAY && s.w.time >= s.next;
                let (msg, ok) = if p.kind == Kind::Stable {
                    (json!({"start_changing_amp": {"next_amp": (a / E18) as u64, "next_amp_time": t}}), oka)
                } else {
                    (json!({"promote": {"next_amp": txt(a), "next_gamma": txt(g), "future_time": t}}), oka && okg)
                };
                n.amp = Ramp { from: txt(ca), to: txt(a) };
                n.gamma = Ramp { from: txt(cg), to: txt(g) };
                n.t0 = s.w.time;
                n.t1 = t;
                n.next = s.w.time + DAY;
                (*x, msg, ok && okt)
            }
            Op::Stop { who: x } => {
                let (ca, cg) = self.cur(&s.w);
                n.amp = Ramp { from: txt(ca), to: txt(ca) };
                n.gamma = Ramp { from: txt(cg), to: txt(cg) };
                n.t0 = s.w.time;
                n.t1 = s.w.time;
                if p.kind == Kind::Stable {
                    n.next = s.w.time + DAY;
                }
                (*x, if p.kind == Kind::Stable { json!({"stop_changing_amp": {}}) } else { json!({"stop_changing_amp_gamma": {}}) }, true)
            }
            Op::Upd { who: x, p: v } => {
                let mut ok = true;
                for (k, lo, hi) in LIM {
                    if v[k].is_null() {
                        continue;
                    }
                    let y = if k == "ma_half_time" { v[k].as_u64().unwrap() as u128 } else { raw(v[k].as_str().unwrap()) };
                    ok &= y >= lo && y <= hi;
                    n.params[k] = if k == "ma_half_time" { v[k].clone() } else { json!(txt(y)) };
                }
                ok &= raw(n.params["out_fee"].as_str().unwrap()) > raw(n.params["mid_fee"].as_str().unwrap());
                (*x, json!({"update": v}), ok)
            }
        };
        let ok = ok && x == 0;
        let r = p.update(&mut n.w, who(x, self.owner), msg.clone());
        let k = match op {
            Op::Start { .. } => "start",
            Op::Stop { .. } => "stop",
            _ => "update",
        };
        cov.hit(&format!("{k}-{}", if r.is_ok() { "ok" } else { "refused" }));
        vensure!(r.is_ok() == ok, "ramp-accept", "{op:?}: {msg} sent by {}: accepted {} but {}", who(x, self.owner), r.is_ok(), if ok { format!("it is within the limits ({:?})", r.err()) } else { "it must be refused".into() });
        if !ok {
            return Ok(None);
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{:?}{:?}{}{}{}{}", s.amp, s.gamma, s.t0, s.t1, s.next, s.params));
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        let (a, g) = self.cur(&s.w);
        let t = s.w.time;
        let ea = at(&s.amp, s.t0, s.t1, t);
        let eg = at(&s.gamma, s.t0, s.t1, t);
        // a stable pool counts its amplification in hundredths
        let tol = if self.p.kind == Kind::Stable { 0.0101 } else { 1e-15 };
        let near = |v: u128, e: Dd, tol: f64| ((Dd::units(v, 18) - e).to()).abs() <= tol;
        let ramping = t < s.t1;
        vensure!(
            if ramping { near(a, ea, tol) } else { a == raw(&s.amp.to) },
            "ramp-value", "amp is {} at {t}, but ramping {} -> {} over {}..{} gives {}", txt(a), s.amp.from, s.amp.to, s.t0, s.t1, ea.to()
        );
        cov.hit(if ramping { "ramping" } else { "settled" });
        if self.p.kind == Kind::Pcl {
            vensure!(
                if ramping { near(g, eg, 1e-17) } else { g == raw(&s.gamma.to) },
                "ramp-value", "gamma is {} at {t}, but ramping {} -> {} over {}..{} gives {}", txt(g), s.gamma.from, s.gamma.to, s.t0, s.t1, eg.to()
            );
            let c = self.p.config_params(&s.w);
            for (k, _, _) in LIM {
                vensure!(c[k] == s.params[k], "pool-params", "{k} is {} instead of {}", c[k], s.params[k]);
            }
        }
        // the effective value is the one computations use
        let x = xs(&self.p, &s.w);
        let q = self.p.w_q(&s.w, if self.p.kind == Kind::Stable { json!({"query_compute_d": {}}) } else { json!({"compute_d": {}}) });
        let d = match (&q, self.p.kind) {
            (Ok(v), Kind::Stable) => stable_d(stable_ann(&self.p, &s.w), x[0], x[1]).to() / (Dd::units(u(v), *self.p.dec.iter().max().unwrap())).to(),
            (Ok(v), _) => crypto_d(ea, eg, x[0], x[1] * Dd::dec(self.p.config_params(&s.w)["price_scale"].as_str().unwrap())).to() / Dd::dec(v.as_str().unwrap()).to(),
            (Err(e), _) => return viol("ramp-value", format!("invariant query failed: {}", e.msg)),
        };
        vensure!((d - 1.0).abs() < 1e-7, "ramp-value", "the invariant in use is off by {:e} from the one at amp {} gamma {}", d - 1.0, ea.to(), eg.to());
        Ok(())
    }
}
fn start(x: u8, amp: To, gamma: To, dt: u64) -> Op {
    Op::Start { who: x, amp, gamma, dt }
}
const START: u64 = 1_700_000_000;
fn model(name: &str, cfg: Cfg, hand: bool, ops: Vec<Op>) -> M {
    let (mut w, p) = build(&cfg);
    // leave the pool imbalanced so that the invariant depends on the parameters
    p.swap(&mut w, ALICE, 0, cfg.seed[0] / 4, p.wide()).unwrap();
    let mut owner = OWNER;
    if hand {
        w.exec_json(OWNER, &p.addr, json!({"propose_new_owner": {"owner": HEIR, "expires_in": 1000}}), &[]).unwrap();
        w.exec_json(HEIR, &p.addr, json!({"claim_ownership": {}}), &[]).unwrap();
        owner = HEIR;
    }
    M { name: name.into(), w0: w, p: Arc::new(p), owner, ops }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A10",
        scenarios: |t| {
            use To::*;
            let k = t as usize;
            let waits: Vec<Op> = [1, 43_000, DAY - 1, DAY, 3 * DAY].iter().map(|s| Op::Wait { s: *s }).collect();
            let mut v: Vec<Box<dyn Runner>> = vec![];
            for (name, amp, hand) in [("stable-amp100", 100, false), ("stable-amp2-handed", 2, true), ("stable-amp200000", 200_000, false)] {
                let mut c = Cfg::new(Kind::Stable);
                c.amp = amp;
                c.seed = vec![1_000_000_000, 400_000_000];
                let mut ops = waits.clone();
                for a in [Up10, Above10, Down10, Below10, Half, Same, Max, OverMax, Min, UnderMin] {
                    ops.push(start(0, a, Same, DAY));
                }
                ops.extend([start(0, Half, Same, DAY - 1), start(0, Up10, Same, 4 * DAY), start(0, Down10, Same, 4 * DAY + 1), start(1, Half, Same, DAY), start(2, Half, Same, DAY)]);
                ops.extend([0, 1, 2].map(|who| Op::Stop { who }));
                v.push(bounded(model(name, c, hand, ops), 5 + k));
            }
            for (name, amp, gamma, hand) in [("pcl-40", "40", "0.000145", false), ("pcl-low-handed", "0.5", "0.00000002", true), ("pcl-high", "50000", "0.01", false)] {
                let mut c = Cfg::new(Kind::Pcl);
                c.pcl.amp = amp.into();
                c.pcl.gamma = gamma.into();
                c.seed = vec![2_000_000_000_000, 1_000_000_000_000];
                let mut ops = waits.clone();
                for a in [Up10, Above10, Down10, Below10, Max, OverMax, Min, UnderMin] {
                    ops.push(start(0, a, Same, DAY));
                    ops.push(start(0, Half, a, DAY));
                }
                ops.extend([start(0, Half, Same, DAY - 1), start(0, Up10, Down10, 4 * DAY), start(0, Half, Half, 2 * DAY), start(1, Half, Same, DAY), start(2, Half, Same, DAY)]);
                ops.extend([0, 1, 2].map(|who| Op::Stop { who }));
                v.push(bounded(model(name, c, hand, ops), 4 + k));
            }
            // fee parameters at, inside and just outside their limits, alone and in pairs
            let mut c = Cfg::new(Kind::Pcl);
            c.seed = vec![2_000_000_000_000, 1_000_000_000_000];
            let mut ops = vec![];
            for (key, lo, hi) in LIM {
                let js = |x: u128| if key == "ma_half_time" { json!(x as u64) } else { json!(txt(x)) };
                for x in [lo.wrapping_sub(1), lo, (lo + hi) / 2, hi, hi + 1] {
                    if x <= hi + 1 {
                        ops.push(Op::Upd { who: 0, p: json!({key: js(x)}) });
                    }
                }
            }
            ops.push(Op::Upd { who: 0, p: json!({"mid_fee": "0.004", "out_fee": "0.004"}) });
            ops.push(Op::Upd { who: 0, p: json!({"mid_fee": "0.004", "out_fee": "0.0041"}) });
            ops.push(Op::Upd { who: 0, p: json!({"mid_fee": "0.0001", "out_fee": "0.00009"}) });
            ops.push(Op::Upd { who: 0, p: json!({"mid_fee": "0.0001", "out_fee": "0.02"}) });
            ops.push(Op::Upd { who: 1, p: json!({"mid_fee": "0.003"}) });
            ops.push(Op::Upd { who: 2, p: json!({"ma_half_time": 700}) });
            v.push(bounded(model("pcl-params", c, false, ops), 3));
            // creation accepts the same range
            let mut cases: Vec<(String, String, bool)> = vec![];
            let mut put = |k: &str, v: String, ok: bool| cases.push((k.to_string(), v, ok));
            for (a, ok) in [(0u64, false), (1, true), (1_000_000, true), (1_000_001, false)] {
                put("stable", a.to_string(), ok);
            }
            for (k, lo, hi) in [("amp", E18 / 10, 100_000 * E18), ("gamma", 10_000_000_000, 20_000_000_000_000_000), LIM[0], LIM[1], LIM[2], LIM[3], LIM[4]] {
                for x in [lo.wrapping_sub(1), lo, hi, hi + 1] {
                    // mid fee and out fee start at 0.26% and 0.45%
                    let order = match k {
                        "mid_fee" => x < 4_500_000_000_000_000,
                        "out_fee" => x > 2_600_000_000_000_000,
                        _ => true,
                    };
                    if x <= hi + 1 {
                        put(k, txt(x), x >= lo && x <= hi && order);
                    }
                }
            }
            for (h, ok) in [(0u64, false), (1, true), (604_800, true), (604_801, false)] {
                put("ma_half_time", h.to_string(), ok);
            }
            v.push(grid("create", cases, |(k, x, ok), cov| {
                let mut c = Cfg::new(if k == "stable" { Kind::Stable } else { Kind::Pcl });
                let q = &mut c.pcl;
                match k.as_str() {
                    "stable" => c.amp = x.parse().unwrap(),
                    "amp" => q.amp = x.clone(),
                    "gamma" => q.gamma = x.clone(),
                    "mid_fee" => q.mid_fee = x.clone(),
                    "out_fee" => q.out_fee = x.clone(),
                    "fee_gamma" => q.fee_gamma = x.clone(),
                    "repeg_profit_threshold" => q.threshold = x.clone(),
                    "min_price_scale_delta" => q.delta = x.clone(),
                    _ => q.half = x.parse().unwrap(),
                }
                let r = quiet(|| build(&c));
                cov.hit(if r.is_ok() { "created" } else { "refused" });
                vensure!(r.is_ok() == *ok, "ramp-accept", "creating a pool with {k} {x}: accepted {}", r.is_ok());
                Ok(())
            }));
            v
        },
        assumptions: &["changes are started from the value the pool reports", "a target is chosen relative to the value in force: exactly tenfold, just beyond, halved, the limits and just beyond them", "one pool per curve and start value"],
    }]
}
