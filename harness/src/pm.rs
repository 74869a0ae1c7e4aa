//! The exploration model shared by the pool properties: one pool, a fixed alphabet, pluggable oracles.
use crate::curve::*;
use crate::engine::*;
use crate::pool::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Provide { u: u8, #[serde(with = "v128")] a: Vec<u128>, to: bool, stake: bool },
    /// num/den of the user's LP
    Withdraw { u: u8, n: u32, d: u32 },
    WithdrawAbs { u: u8, #[serde(with = "s128")] v: u128 },
    Swap { u: u8, i: usize, j: usize, #[serde(with = "s128")] v: u128, to: bool },
    Donate { i: usize, #[serde(with = "s128")] v: u128 },
    Wait { s: u64 },
    /// any configuration message: sender, parameters
    Update { who: String, p: Value },
    /// change the factory's fees for this pool kind
    Fees { fee: u16, maker: u16 },
}
#[derive(Clone)]
pub struct PS {
    pub w: World,
    pub x: Value,
}
/// one executed operation
pub struct Tr<'a> {
    pub m: &'a PM,
    pub p: &'a Pool,
    pub w: &'a World,
    pub op: &'a Op,
    pub r: Result<Tx, String>,
    pub n: &'a World,
    /// LP tokens sent by a withdrawal
    pub lp: u128,
}
pub type Check = fn(&Tr, &mut Cov) -> Result<(), Viol>;
pub type StateCheck = fn(&PM, &PS, &mut Cov) -> Result<(), Viol>;
/// auxiliary reference state carried along: updated after every successful operation
pub type Aux = fn(&Tr, &Value, &mut Cov) -> Result<Value, Viol>;

pub struct PM {
    pub name: String,
    pub w0: World,
    pub p: Arc<Pool>,
    pub alphabet: Vec<Op>,
    pub checks: Vec<Check>,
    pub state_checks: Vec<StateCheck>,
    pub aux: Option<(Value, Aux)>,
    pub time: bool,
    /// advance one block (and this many seconds) after each successful operation
    pub tick: (u64, u64),
}
pub fn user(u: u8) -> &'static str {
    [ALICE, BOB, SEED][u as usize]
}
impl PM {
    pub fn new(name: &str, cfg: Cfg, alphabet: Vec<Op>, checks: &[Check]) -> PM {
        let (mut w, p) = build(&cfg);
        w.advance(0, 0);
        PM { name: name.into(), w0: w, p: Arc::new(p), alphabet, checks: checks.to_vec(), state_checks: vec![], aux: None, time: false, tick: (0, 0) }
    }
    pub fn state(mut self, c: StateCheck) -> PM {
        self.state_checks.push(c);
        self
    }
    pub fn timed(mut self, s: u64, b: u64) -> PM {
        self.time = true;
        self.tick = (s, b);
        self
    }
    pub fn aux(mut self, v: Value, f: Aux) -> PM {
        self.aux = Some((v, f));
        self
    }
    pub fn apply(&self, w: &World, op: &Op) -> (Result<Tx, String>, World, u128) {
        let mut n = w.clone();
        let p = &self.p;
        let mut lp = 0;
        let r = match op {
            Op::Provide { u, a, to, stake } => {
                let mut e = json!({});
                if *to {
                    e["receiver"] = json!(CAROL);
                }
                if *stake {
                    e["auto_stake"] = json!(true);
                }
                p.provide(&mut n, user(*u), a, e)
            }
            Op::Withdraw { u, n: k, d } => {
                lp = mul_div(p.lp_of(w, user(*u)), *k as u128, *d as u128);
                p.withdraw(&mut n, user(*u), lp, json!({}))
            }
            Op::WithdrawAbs { u, v } => {
                lp = *v;
                p.withdraw(&mut n, user(*u), lp, json!({}))
            }
            Op::Swap { u, i, j, v, to } => {
                let mut e = json!({"max_spread": "0.5"});
                if p.n() > 2 {
                    e["ask_asset_info"] = p.toks[*j].info();
                }
                if *to {
                    e["to"] = json!(CAROL);
                }
                p.swap(&mut n, user(*u), *i, *v, e)
            }
            Op::Donate { i, v } => p.donate(&mut n, BOB, *i, *v).map(|_| Tx::default()),
            Op::Wait { s } => {
                n.advance(*s, 1);
                Ok(Tx::default())
            }
            Op::Update { who, p: v } => p.update(&mut n, who, v.clone()),
            Op::Fees { fee, maker } => n.exec_json(OWNER, &p.factory, json!({"update_pair_config": {"config": pair_config(p.kind, *fee, *maker)}}), &[]),
        };
        if r.is_ok() && !matches!(op, Op::Wait { .. }) {
            n.advance(self.tick.0, self.tick.1);
        }
        (r, n, lp)
    }
}
pub fn mul_div(a: u128, b: u128, c: u128) -> u128 {
    let r = cosmwasm_std::Uint256::from(a) * cosmwasm_std::Uint256::from(b) / cosmwasm_std::Uint256::from(c);
    cosmwasm_std::Uint128::try_from(r).unwrap().u128()
}
impl Model for PM {
    type S = PS;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> PS {
        PS { w: self.w0.clone(), x: self.aux.as_ref().map(|x| x.0.clone()).unwrap_or(Value::Null) }
    }
    fn ops(&self, _: &PS, _: usize) -> Vec<Op> {
        self.alphabet.clone()
    }
    fn step(&self, s: &PS, op: &Op, cov: &mut Cov) -> Result<Option<PS>, Viol> {
        let (r, n, lp) = self.apply(&s.w, op);
        let ok = r.is_ok();
        let kind = match op {
            Op::Provide { .. } => "provide",
            Op::Withdraw { .. } | Op::WithdrawAbs { .. } => "withdraw",
            Op::Swap { .. } => "swap",
            Op::Donate { .. } => "donate",
            Op::Wait { .. } => "wait",
            Op::Update { .. } => "update",
            Op::Fees { .. } => "fees",
        };
        cov.hit(&format!("{kind}-{}", if ok { "ok" } else { "refused" }));
        if std::env::var("MC_ERR").is_ok() {
            if let Err(e) = &r {
                cov.hit(&format!("err:{e}").chars().filter(|c| !c.is_ascii_digit()).take(90).collect::<String>());
            }
        }
        let tr = Tr { m: self, p: &self.p, w: &s.w, op, r, n: &n, lp };
        for c in &self.checks {
            c(&tr, cov)?;
        }
        let x = match &self.aux {
            Some((_, f)) if ok => f(&tr, &s.x, cov)?,
            _ => s.x.clone(),
        };
        Ok(ok.then(|| PS { w: n, x }))
    }
    fn fp(&self, s: &PS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, self.time);
        if self.aux.is_some() {
            h.str(&s.x.to_string());
        }
        h.done()
    }
    fn check(&self, s: &PS, cov: &mut Cov) -> Result<(), Viol> {
        for c in &self.state_checks {
            c(self, s, cov)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- reading a pool
pub struct PclState {
    pub amp: Dd,
    pub gamma: Dd,
    pub scale: Dd,
    pub scale_s: String,
    pub mid: Dd,
    pub out: Dd,
    pub fee_gamma: Dd,
}
pub fn pcl_state(p: &Pool, w: &World) -> PclState {
    let c = p.config_params(w);
    let g = |k: &str| Dd::dec(c[k].as_str().unwrap());
    PclState {
        amp: g("amp"),
        gamma: g("gamma"),
        scale: g("price_scale"),
        scale_s: c["price_scale"].as_str().unwrap().into(),
        mid: g("mid_fee"),
        out: g("out_fee"),
        fee_gamma: g("fee_gamma"),
    }
}
/// raw internal prices of a concentrated pool
pub fn pcl_price(p: &Pool, w: &World, k: &str) -> Dd {
    let c: Value = serde_json::from_slice(&w.contracts[p.addr.as_str()].storage[b"config".as_slice()]).unwrap();
    Dd::dec(c["pool_state"]["price_state"][k].as_str().unwrap())
}
pub fn stable_ann(p: &Pool, w: &World) -> Dd {
    Dd::dec(p.config_params(w)["amp"].as_str().unwrap()) * Dd::f(2.0)
}
/// reserves in whole tokens
pub fn xs(p: &Pool, w: &World) -> Vec<Dd> {
    p.reserves(w).iter().zip(&p.dec).map(|(x, d)| Dd::units(*x, *d)).collect()
}
/// pool value (invariant measure) in whole tokens; for a concentrated pool xcp
pub fn value(p: &Pool, w: &World) -> Dd {
    let x = xs(p, w);
    match p.kind {
        Kind::Xyk | Kind::Tax => (x[0] * x[1]).sqrt(),
        Kind::Stable => stable_d(stable_ann(p, w), x[0], x[1]),
        Kind::Pcl => {
            let c = pcl_state(p, w);
            crypto_d(c.amp, c.gamma, x[0], x[1] * c.scale) / (Dd::f(2.0) * c.scale.sqrt())
        }
        Kind::Trans => x.iter().fold(Dd::ZERO, |a, b| a + *b),
    }
}
pub fn lp_dec(p: &Pool) -> u8 {
    match p.kind {
        Kind::Stable | Kind::Trans => *p.dec.iter().max().unwrap(),
        _ => 6,
    }
}

/// The recorded finding about small concentrated pools: the contract's Newton iteration stops at an absolute
/// step of 1e-5 whole tokens, and its first step is about gamma * D / 4, so that below this size it stops at
/// its starting point instead of the invariant. The same happens where one side of the pool is that small: the
/// iterations for the balance of that side are then further off than a small trade moves it.
pub fn pcl_below_tolerance(p: &Pool, w: &World) -> bool {
    let c = pcl_state(p, w);
    let x = xs(p, w);
    let d0 = Dd::f(2.0) * (x[0] * x[1] * c.scale).sqrt();
    let (a, b) = (x[0], x[1] * c.scale);
    let side = c.gamma * if a < b { a } else { b };
    c.gamma * d0 / Dd::f(4.0) <= Dd::f(1.5e-5) || side <= Dd::f(1.5e-5)
}

// ---------------------------------------------------------------- alphabets
pub fn swaps(us: &[u8], amounts: &[&[u128]]) -> Vec<Op> {
    let mut v = vec![];
    for u in us {
        for (i, a) in amounts.iter().enumerate() {
            for x in *a {
                v.push(Op::Swap { u: *u, i, j: 1 - i.min(1), v: *x, to: false });
            }
        }
    }
    v
}
pub fn provides(us: &[u8], amounts: &[[u128; 2]]) -> Vec<Op> {
    us.iter().flat_map(|u| amounts.iter().map(move |a| Op::Provide { u: *u, a: a.to_vec(), to: false, stake: false })).collect()
}
pub fn withdraws(us: &[u8], fr: &[(u32, u32)]) -> Vec<Op> {
    us.iter().flat_map(|u| fr.iter().map(move |f| Op::Withdraw { u: *u, n: f.0, d: f.1 })).collect()
}
