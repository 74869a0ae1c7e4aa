//! E01, E02: the maker collects fees, swaps them and splits the result.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use cosmwasm_std::{Decimal, Uint128};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use std::sync::Arc;

const STAKE: &str = "wasm1xastro";
const SECOND: &str = "wasm1second";
const DEV: &str = "wasm1devfund";
const SEIZER: &str = "wasm1seizer";
const RES: u128 = 1_000_000_000_000_000;
/// pools between tokens
const POOLS: [(usize, usize); 8] = [(1, 0), (2, 1), (3, 0), (3, 1), (4, 0), (5, 2), (8, 5), (7, 8)];
const COOLDOWN: u64 = 30;
const T0: u64 = 1_700_000_000;

pub struct Sys {
    pub maker: String,
    pub factory: String,
    pub gov: String,
    /// 0 is the reward token, 3 a cw20, 4 the development fund's, 6 has no pool
    pub toks: Vec<Tok>,
    pub pools: Vec<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Set {
    pub cw20: bool,
    pub staking: bool,
    pub gov: bool,
    pub gp: u64,
    pub cut: Option<u64>,
    pub dev: Option<String>,
    pub cooldown: bool,
    pub default: Option<usize>,
    pub enabled: bool,
}
const PLAIN: Set = Set { cw20: false, staking: true, gov: true, gp: 30, cut: None, dev: None, cooldown: false, default: None, enabled: true };

pub fn system(c: &Set) -> (World, Sys) {
    let mut w = World::new();
    w.time = T0;
    w.height = 1000;
    let who = [SEED, ALICE];
    for d in [ASTRO, "uaaa", "ubbb", "uddd", "ueee", "ufff", "uggg", "uhhh"] {
        for a in who {
            w.fund(a, d, 1 << 100);
        }
    }
    let cw = new_cw20(&mut w, "Fee token", 6, &who.map(|a| (a, 1 << 100)));
    let astro = if c.cw20 { Tok::T(new_cw20(&mut w, "Astro", 6, &who.map(|a| (a, 1 << 100)))) } else { native(ASTRO) };
    let toks = vec![astro.clone(), native("uaaa"), native("ubbb"), Tok::T(cw), native("uddd"), native("ueee"), native("ufff"), native("uggg"), native("uhhh")];
    let coins: Vec<(String, u8)> = toks.iter().filter(|t| t.native()).map(|t| (t.id().to_string(), 6)).collect();
    let reg = new_registry(&mut w, &coins);
    let f = new_factory(&mut w, &reg, vec![pair_config(Kind::Xyk, 30, 3333)], None, None);
    let gov = w.init(OWNER, SINK, &json!({}), &[]).unwrap();
    let mut pools = vec![];
    for (a, b) in POOLS {
        let mut cfg = Cfg::new(Kind::Xyk);
        cfg.seed = vec![];
        let p = create_pool(&mut w, &cfg, &f, None, &[toks[a].clone(), toks[b].clone()]);
        for t in [a, b] {
            if let Tok::T(t) = &toks[t] {
                w.exec_json(SEED, t, json!({"increase_allowance": {"spender": p.addr, "amount": RES.to_string()}}), &[]).unwrap();
            }
        }
        p.provide(&mut w, SEED, &[RES, RES], json!({})).unwrap();
        pools.push(p.addr.clone());
    }
    let mut extra = json!({"governance_percent": c.gp.to_string()});
    if c.gov {
        extra["governance_contract"] = json!(gov);
    }
    if c.staking {
        extra["staking_contract"] = json!(STAKE);
    }
    if let Some(x) = c.cut {
        extra["second_receiver_params"] = json!({"second_fee_receiver": SECOND, "second_receiver_cut": x.to_string()});
    }
    if c.cooldown {
        extra["collect_cooldown"] = json!(COOLDOWN);
    }
    if let Some(t) = c.default {
        extra["default_bridge"] = toks[t].info();
    }
    let m = new_maker(&mut w, &f, &astro, extra).unwrap();
    w.exec_json(OWNER, &f, json!({"update_config": {"fee_address": m}}), &[]).unwrap();
    if let Some(s) = &c.dev {
        w.exec_json(OWNER, &m, json!({"update_config": {"dev_fund_config": {"set": {"address": DEV, "share": s, "asset_info": toks[4].info()}}}}), &[]).unwrap();
    }
    let s = Sys { maker: m, factory: f, gov, toks, pools };
    if c.enabled {
        w.exec_json(OWNER, &s.maker, json!({"enable_rewards": {"blocks": 1}}), &[]).unwrap();
    }
    (w, s)
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Ch {
    Gp(u64),
    Gov(bool),
    Cut(u64),
    Dev(Option<String>),
    Spread(String),
    Cooldown(u64),
    Default(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Arrive { t: usize, #[serde(with = "s128")] v: u128 },
    Collect { who: String, l: Vec<(usize, Option<u64>)> },
    Enable { who: String, n: u64 },
    Wait { secs: u64, blocks: u64 },
    Change { who: String, c: Ch },
    Bridges { who: String, add: Vec<(usize, usize)>, rem: Vec<usize> },
    Seize { who: String, l: Vec<(usize, Option<u64>)> },
    SeizeCfg { who: String, to: bool, l: Vec<usize> },
    Inner { who: String, astro: bool },
    Dereg(usize),
}
#[derive(Clone, Debug, Hash, Default)]
pub struct Gh {
    pub bridges: BTreeMap<usize, usize>,
    pub default: Option<usize>,
    pub gone: BTreeSet<usize>,
    pub gov: bool,
    pub staking: bool,
    pub gp: u64,
    pub cut: Option<u64>,
    pub dev: Option<String>,
    pub spread: String,
    pub cooldown: Option<u64>,
    pub last: u64,
    pub enabled: bool,
    pub blocks: u64,
    pub last_block: u64,
    pub pre: u128,
    pub rem: u128,
    pub seize: bool,
    pub seizable: BTreeSet<usize>,
}
#[derive(Clone)]
pub struct S {
    pub w: World,
    pub g: Gh,
}
pub struct M {
    name: String,
    pub s0: S,
    pub sys: Arc<Sys>,
    alpha: Arc<dyn Fn(&M, &S) -> Vec<Op> + Send + Sync>,
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Want {
    Ok,
    No,
    /// depends on rounding or on prices
    Any,
}
impl Gh {
    fn pool(&self, a: usize, b: usize) -> Option<usize> {
        POOLS.iter().position(|p| *p == (a, b) || *p == (b, a)).filter(|i| !self.gone.contains(i))
    }
    fn valid(&self, a: usize, b: usize, depth: u64) -> bool {
        if self.pool(a, b).is_none() {
            return false;
        }
        if b == 0 || self.pool(b, 0).is_some() {
            return true;
        }
        depth < 2 && self.bridges.get(&b).is_some_and(|c| self.valid(b, *c, depth + 1))
    }
    /// where a token is swapped to
    fn next(&self, a: usize) -> Option<usize> {
        if let Some(b) = self.bridges.get(&a) {
            return self.valid(a, *b, 0).then_some(*b);
        }
        if let Some(d) = self.default {
            if d != a && self.pool(a, d).is_some() {
                return Some(d);
            }
        }
        self.pool(a, 0).map(|_| 0)
    }
    /// the tokens passed on the way to the reward token
    fn route(&self, a: usize) -> Option<Vec<usize>> {
        let mut v = vec![];
        let mut x = a;
        for _ in 0..6 {
            x = self.next(x)?;
            if x == 0 {
                return Some(v);
            }
            v.push(x);
        }
        None
    }
}
fn mul(v: u128, s: &str) -> u128 {
    (Uint128::new(v).mul_floor(Decimal::from_str(s).unwrap())).u128()
}
type D = BTreeMap<(String, String), i128>;

impl Op {
    pub fn send(&self, s: &Sys, w: &mut World) -> Result<Tx, String> {
        let lim = |l: &Vec<(usize, Option<u64>)>| json!(l.iter().map(|(t, v)| json!({"info": s.toks[*t].info(), "limit": v.map(|x| x.to_string())})).collect::<Vec<_>>());
        match self {
            Op::Arrive { t, v } => match &s.toks[*t] {
                Tok::N(d) => w.send(SEED, &s.maker, d, *v).map(|_| Tx::default()),
                Tok::T(t) => w.exec_json(SEED, t, json!({"transfer": {"recipient": s.maker, "amount": v.to_string()}}), &[]),
            },
            Op::Collect { who, l } => w.exec_json(who, &s.maker, json!({"collect": {"assets": lim(l)}}), &[]),
            Op::Enable { who, n } => w.exec_json(who, &s.maker, json!({"enable_rewards": {"blocks": n}}), &[]),
            Op::Wait { secs, blocks } => {
                w.advance(*secs, *blocks);
                Ok(Tx::default())
            }
            Op::Change { who, c } => {
                let m = match c {
                    Ch::Gp(x) => json!({"governance_percent": x.to_string()}),
                    Ch::Gov(true) => json!({"governance_contract": {"set": s.gov}}),
                    Ch::Gov(false) => json!({"governance_contract": {"remove": {}}}),
                    Ch::Cut(x) => json!({"second_receiver_params": {"second_fee_receiver": SECOND, "second_receiver_cut": x.to_string()}}),
                    Ch::Dev(None) => json!({"dev_fund_config": {"set": Value::Null}}),
                    Ch::Dev(Some(x)) => json!({"dev_fund_config": {"set": {"address": DEV, "share": x, "asset_info": s.toks[4].info()}}}),
                    Ch::Spread(x) => json!({"max_spread": x}),
                    Ch::Cooldown(x) => json!({"collect_cooldown": x}),
                    Ch::Default(t) => json!({"basic_asset": s.toks[*t].info()}),
                };
                w.exec_json(who, &s.maker, json!({"update_config": m}), &[])
            }
            Op::Bridges { who, add, rem } => w.exec_json(
                who,
                &s.maker,
                json!({"update_bridges": {"add": add.iter().map(|(a, b)| json!([s.toks[*a].info(), s.toks[*b].info()])).collect::<Vec<_>>(), "remove": rem.iter().map(|a| s.toks[*a].info()).collect::<Vec<_>>()}}),
                &[],
            ),
            Op::Seize { who, l } => w.exec_json(who, &s.maker, json!({"seize": {"assets": lim(l)}}), &[]),
            Op::SeizeCfg { who, to, l } => w.exec_json(
                who,
                &s.maker,
                json!({"update_seize_config": {"receiver": to.then_some(SEIZER), "seizable_assets": l.iter().map(|t| s.toks[*t].info()).collect::<Vec<_>>()}}),
                &[],
            ),
            Op::Inner { who, astro: true } => w.exec_json(who, &s.maker, json!({"distribute_astro": {}}), &[]),
            Op::Inner { who, .. } => w.exec_json(who, &s.maker, json!({"swap_bridge_assets": {"assets": [s.toks[1].info()], "depth": 0}}), &[]),
            Op::Dereg(p) => {
                let (a, b) = POOLS[*p];
                w.exec_json(OWNER, &s.factory, json!({"deregister": {"asset_infos": [s.toks[a].info(), s.toks[b].info()]}}), &[])
            }
        }
    }
}
impl M {
    /// how much of the available reward tokens goes out now: everything but what is still locked
    fn release(g: &mut Gh, avail: u128, height: u64) -> u128 {
        if avail == 0 {
            return 0;
        }
        if !g.enabled {
            g.pre = avail;
            g.rem = avail;
            return 0;
        }
        if g.rem == 0 {
            return avail;
        }
        let passed = (height - g.last_block) as u128;
        if passed == 0 {
            return 0;
        }
        // at least one unit per block, so that everything is released in the end
        let cur = (passed * (g.pre / g.blocks as u128).max(1)).min(g.rem);
        let x = avail - g.rem + cur;
        g.rem -= cur;
        g.last_block = height;
        x
    }
    /// second receiver, governance, development fund, staking; None if the shares exceed the whole
    fn split(g: &Gh, x: u128) -> Option<[u128; 4]> {
        let s = g.cut.map_or(0, |c| x * c as u128 / 100);
        let v = if g.gov { (x - s) * g.gp as u128 / 100 } else { 0 };
        let d = g.dev.as_ref().map_or(0, |r| mul(x, r));
        let rest = x.checked_sub(s + v + d)?;
        Some([s, v, d, if g.staking { rest } else { 0 }])
    }
    fn collect(&self, s0: &S, l: &[(usize, Option<u64>)], op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let y = &self.sys;
        let g = &s0.g;
        let b0 = balances(&s0.w);
        let bal = |t: usize| b0.get(&(y.maker.clone(), y.toks[t].id().to_string())).copied().unwrap_or(0);
        let mut want = Want::Ok;
        let soft = |w: Want, x: Want| if w == Want::No || x == Want::No { Want::No } else if w == Want::Any { w } else { x };
        if g.cooldown.is_some_and(|c| s0.w.time < g.last + c) {
            want = Want::No;
        }
        if l.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() != l.len() {
            want = Want::No;
        }
        // what happens to each token
        let mut left: BTreeMap<usize, u128> = (1..y.toks.len()).map(|t| (t, bal(t))).collect();
        let mut through = BTreeSet::new();
        let mut moved = 0;
        for (t, limit) in l.iter().filter(|x| x.0 != 0) {
            let v = match limit {
                Some(x) if *x > 0 => bal(*t).min(*x as u128),
                _ => bal(*t),
            };
            if v == 0 {
                continue;
            }
            match g.route(*t) {
                None => want = Want::No,
                Some(r) => {
                    // tiny amounts vanish on the way
                    if v < 50 {
                        want = soft(want, Want::Any);
                    }
                    through.extend(r);
                }
            }
            let max = mul(RES, &g.spread);
            moved += v;
            if moved > max / 2 {
                want = soft(want, if v > max * 3 && g.spread == "0.05" { Want::No } else { Want::Any });
            }
            *left.get_mut(t).unwrap() = bal(*t) - v;
        }
        for t in through {
            // everything of a token passed on the way is swapped
            moved += bal(t);
            left.insert(t, 0);
        }
        if moved > mul(RES, &g.spread) / 2 {
            want = soft(want, Want::Any);
        }
        // the same without the development fund, whose swap could hide what was available
        let mut plain = s0.w.clone();
        if g.dev.is_some() {
            Op::Change { who: OWNER.into(), c: Ch::Dev(None) }.send(y, &mut plain).unwrap();
        }
        let r0 = op.send(y, &mut plain);
        let mut nx = s0.clone();
        let r = op.send(y, &mut nx.w);
        if r0.is_err() {
            vensure!(want != Want::Ok, "accepted", "{op:?} was refused: {:?}", r0.err());
            vensure!(r.is_err(), "accepted", "{op:?} was accepted only with a development fund");
            vensure!(balances(&nx.w) == b0, "refused", "{op:?} was refused and moved something");
            cov.hit("collect-refused");
            return Ok(None);
        }
        vensure!(want != Want::No, "accepted", "{op:?} should be refused");
        let astro = y.toks[0].id().to_string();
        let d0 = diff(&b0, &balances(&plain));
        let got: i128 = y.pools.iter().map(|p| -d0.get(&(p.clone(), astro.clone())).copied().unwrap_or(0)).sum();
        vensure!(got >= 0, "spent", "{op:?} sold the reward token: {d0:?}");
        let avail = bal(0) + got as u128;
        let mut gh = g.clone();
        gh.last = s0.w.time;
        let x = Self::release(&mut gh, avail, s0.w.height);
        // swaps
        let mut swaps: D = d0.clone();
        let pay = |d: &mut D, who: &str, v: u128, sign: i128| {
            let mut e = Exp(std::mem::take(d));
            e.add(who, &astro, v as i128 * sign).add(&y.maker, &astro, -(v as i128) * sign);
            *d = e.0;
        };
        let mut nodev = g.clone();
        nodev.dev = None;
        let sh = Self::split(&nodev, x).unwrap();
        for (who, v) in [SECOND, y.gov.as_str(), "", STAKE].into_iter().zip(sh) {
            pay(&mut swaps, who, v, -1);
        }
        for ((who, t), v) in &swaps {
            let pool = y.pools.contains(who);
            vensure!(pool || *who == y.maker, "moved", "{op:?}: {who} got {v} {t}, with {avail} available and {x} to be split as {sh:?}: {d0:?}");
            let sum: i128 = swaps.iter().filter(|k| k.0 .1 == *t).map(|k| *k.1).sum();
            vensure!(sum == 0, "moved", "{op:?}: {t} is not conserved");
        }
        for (t, v) in &left {
            let k = (y.maker.clone(), y.toks[*t].id().to_string());
            let now = bal(*t) as i128 + swaps.get(&k).copied().unwrap_or(0);
            vensure!(now == *v as i128, "swapped", "{op:?}: {now} of {} are left instead of {v}", y.toks[*t].id());
        }
        // now with it
        let Some(sh) = Self::split(g, x) else {
            vensure!(r.is_err(), "overspent", "{op:?} spent more than the {x} available");
            vensure!(balances(&nx.w) == b0, "refused", "{op:?} was refused and moved something");
            cov.hit("collect-too-many-shares");
            return Ok(None);
        };
        if let Err(e) = r {
            vensure!(sh[2] > 0 && (sh[2] < 50 || g.gone.contains(&4) || sh[2] > mul(RES, &g.spread) / 2), "accepted", "{op:?} was refused: {e}");
            vensure!(balances(&nx.w) == b0, "refused", "{op:?} was refused and moved something");
            cov.hit("collect-refused");
            return Ok(None);
        }
        let b = balances(&nx.w);
        let mut d = diff(&b0, &b);
        if sh[2] > 0 {
            let dt = y.toks[4].id().to_string();
            let mut e = Exp(std::mem::take(&mut d));
            let got = e.0.get(&(DEV.to_string(), dt.clone())).copied().unwrap_or(0);
            let base = swaps.get(&(y.pools[4].clone(), dt.clone())).copied().unwrap_or(0);
            let out = base - e.0.get(&(y.pools[4].clone(), dt.clone())).copied().unwrap_or(0);
            // the fee of that very swap may go to either
            vensure!(got <= out && got >= out - out / 500 - 1, "dev-fund", "{op:?}: {out} were bought for the development fund, which got {got}");
            vensure!(got > 0 || sh[2] < 50, "dev-fund", "{op:?}: the development fund got nothing for {}", sh[2]);
            e.add(DEV, &dt, -got).add(&y.maker, &dt, got - out).add(&y.pools[4], &dt, out);
            d = e.0;
            cov.hit("dev-fund");
        }
        let mut e = swaps;
        for (who, v) in [SECOND, y.gov.as_str(), y.pools[4].as_str(), STAKE].into_iter().zip(sh) {
            pay(&mut e, who, v, 1);
        }
        vensure!(d == e, "split", "{op:?}: with {avail} available and {x} to be split as {sh:?}: {d:?} instead of {e:?}");
        cov.hit(if x > 0 { "distributed" } else { "kept" });
        if got > 0 {
            cov.hit("swapped");
        }
        nx.g = gh;
        Ok(Some(nx))
    }
    fn run(&self, s0: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let y = &self.sys;
        if let Op::Collect { l, .. } = op {
            return self.collect(s0, l, op, cov);
        }
        let b0 = balances(&s0.w);
        let bal = |t: usize| b0.get(&(y.maker.clone(), y.toks[t].id().to_string())).copied().unwrap_or(0);
        let mut g = s0.g.clone();
        let mut e = Exp::default();
        let own = |who: &String| who == OWNER;
        let ok = match op {
            Op::Arrive { t, v } => {
                e.mv(SEED, &y.maker, y.toks[*t].id(), *v);
                true
            }
            Op::Enable { who, n } => {
                let ok = own(who) && !g.enabled && *n > 0;
                g.enabled = true;
                g.blocks = *n;
                g.last_block = s0.w.height;
                ok
            }
            Op::Wait { .. } => true,
            Op::Change { who, c } => {
                own(who)
                    && match c {
                        Ch::Gp(x) => {
                            g.gp = *x;
                            *x <= 100 && (g.staking || *x == 100)
                        }
                        Ch::Gov(x) => {
                            g.gov = *x;
                            *x || g.staking
                        }
                        Ch::Cut(x) => {
                            g.cut = Some(*x);
                            (1..=50).contains(x)
                        }
                        Ch::Dev(x) => {
                            g.dev = x.clone();
                            x.as_ref().is_none_or(|x| {
                                let x = Decimal::from_str(x).unwrap();
                                x > Decimal::zero() && x <= Decimal::one() && !g.gone.contains(&4)
                            })
                        }
                        Ch::Spread(x) => {
                            g.spread = x.clone();
                            let x = Decimal::from_str(x).unwrap();
                            x > Decimal::zero() && x <= Decimal::percent(50)
                        }
                        Ch::Cooldown(x) => {
                            g.cooldown = Some(*x);
                            (30..=600).contains(x)
                        }
                        Ch::Default(t) => {
                            g.default = Some(*t);
                            true
                        }
                    }
            }
            Op::Bridges { who, add, rem } => {
                for t in rem {
                    g.bridges.remove(t);
                }
                let mut ok = own(who);
                for (a, b) in add {
                    ok &= a != b && g.valid(*a, *b, 0);
                    g.bridges.insert(*a, *b);
                }
                ok
            }
            Op::Seize { l, .. } => {
                let mut ok = !l.is_empty() && g.seize && l.iter().all(|x| g.seizable.contains(&x.0)) && !g.seizable.is_empty();
                let mut left: BTreeMap<usize, u128> = (0..y.toks.len()).map(|t| (t, bal(t))).collect();
                for (t, limit) in l {
                    let v = limit.map_or(bal(*t), |x| bal(*t).min(x as u128));
                    match left[t].checked_sub(v) {
                        Some(x) => {
                            left.insert(*t, x);
                        }
                        None => ok = false,
                    }
                    e.mv(&y.maker, SEIZER, y.toks[*t].id(), v);
                }
                // nothing to send: whether this is refused is of no importance
                if e.0.is_empty() && ok {
                    let mut nx = s0.clone();
                    let r = op.send(y, &mut nx.w);
                    vensure!(balances(&nx.w) == b0, "seize", "{op:?} moved something");
                    return Ok(r.ok().map(|_| nx));
                }
                // a receiver was never appointed
                if !g.seize && l.iter().all(|x| g.seizable.contains(&x.0)) && !l.is_empty() && e.0.is_empty() {
                    return Ok(None);
                }
                ok
            }
            Op::SeizeCfg { who, to, l } => {
                g.seize |= to;
                g.seizable = l.iter().copied().collect();
                own(who)
            }
            Op::Inner { .. } => false,
            Op::Dereg(p) => g.gone.insert(*p),
            Op::Collect { .. } => unreachable!(),
        };
        let mut nx = s0.clone();
        let r = op.send(y, &mut nx.w);
        let d = diff(&b0, &balances(&nx.w));
        vensure!(r.is_ok() == ok, "accepted", "{op:?} should be {} but: {:?}", if ok { "accepted" } else { "refused" }, r.err());
        let kind = format!("{op:?}").split([' ', '(', '{']).next().unwrap().to_string();
        cov.hit(&format!("{kind}-{}", if ok { "accepted" } else { "refused" }));
        if !ok {
            vensure!(d.is_empty(), "refused", "{op:?} was refused and moved {d:?}");
            return Ok(None);
        }
        vensure!(d == e.0, "moved", "{op:?} moved {d:?} instead of {:?}", e.0);
        nx.g = g;
        Ok(Some(nx))
    }
    fn audit(&self, s: &S) -> Result<(), Viol> {
        let (y, g) = (&self.sys, &s.g);
        let c = s.w.q(&y.maker, json!({"config": {}})).unwrap();
        let sec = g.cut.map_or(Value::Null, |x| json!({"second_fee_receiver": SECOND, "second_receiver_cut": x.to_string()}));
        vensure!(
            c["owner"] == OWNER && c["governance_contract"] == g.gov.then(|| y.gov.clone()).map_or(Value::Null, |x| json!(x)) && u(&c["governance_percent"]) == g.gp as u128 && c["second_receiver_cfg"] == sec && c["astro_token"] == y.toks[0].info() && c["default_bridge"] == g.default.map_or(Value::Null, |t| y.toks[t].info()),
            "config",
            "configuration {c} should be {g:?}"
        );
        vensure!(u(&c["remainder_reward"]) == g.rem && u(&c["pre_upgrade_astro_amount"]) == g.pre, "remainder", "{} of {} not released, should be {} of {}", c["remainder_reward"], c["pre_upgrade_astro_amount"], g.rem, g.pre);
        let q = s.w.q(&y.maker, json!({"bridges": {}})).unwrap();
        let got: BTreeSet<(String, String)> = q.as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into())).collect();
        let want: BTreeSet<(String, String)> = g.bridges.iter().map(|(a, b)| (y.toks[*a].id().into(), y.toks[*b].id().into())).collect();
        vensure!(got == want, "bridges", "bridges {q} should be {want:?}");
        let q = s.w.q(&y.maker, json!({"balances": {"assets": y.toks.iter().map(|t| t.info()).collect::<Vec<_>>()}})).unwrap();
        for t in &y.toks {
            let shown = q["balances"].as_array().unwrap().iter().find(|x| x["info"] == t.info()).map_or(0, |x| u(&x["amount"]));
            vensure!(shown == t.bal(&s.w, &y.maker), "balances", "{q}");
        }
        if g.enabled && g.rem > 0 {
            vensure!(y.toks[0].bal(&s.w, &y.maker) >= g.rem, "locked", "the maker does not hold what is still to be released");
        }
        Ok(())
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        self.s0.clone()
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        (self.alpha)(self, s)
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        self.run(s, op, cov)
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        use std::hash::{Hash, Hasher};
        let mut d = std::collections::hash_map::DefaultHasher::new();
        s.g.hash(&mut d);
        h.u64(d.finish());
        h.done()
    }
    fn check(&self, s: &S, _: &mut Cov) -> Result<(), Viol> {
        self.audit(s)
    }
}
fn model(name: &str, c: &Set, pre: &[Op], alpha: impl Fn(&M, &S) -> Vec<Op> + Send + Sync + 'static) -> M {
    let (w, sys) = system(c);
    let g = Gh {
        default: c.default,
        gov: c.gov,
        staking: c.staking,
        gp: if c.gov { c.gp } else { 0 },
        cut: c.cut,
        dev: c.dev.clone(),
        spread: "0.05".into(),
        cooldown: c.cooldown.then_some(COOLDOWN),
        last: w.time,
        enabled: c.enabled,
        blocks: 1,
        last_block: w.height,
        ..Default::default()
    };
    let mut m = M { name: name.into(), s0: S { w, g }, sys: Arc::new(sys), alpha: Arc::new(alpha) };
    for op in pre {
        match m.run(&m.s0, op, &mut Cov::default()) {
            Ok(Some(s)) => m.s0 = s,
            x => {
                eprintln!("{name}: preparing with {op:?}: {:?}", x.map(|_| ()));
                break;
            }
        }
    }
    m
}
fn col(l: &[(usize, Option<u64>)]) -> Op {
    Op::Collect { who: BOB.into(), l: l.to_vec() }
}
fn arr(t: usize, v: u128) -> Op {
    Op::Arrive { t, v }
}
fn wait(secs: u64, blocks: u64) -> Op {
    Op::Wait { secs, blocks }
}
fn ch(c: Ch) -> Op {
    Op::Change { who: OWNER.into(), c }
}
fn br(add: &[(usize, usize)], rem: &[usize]) -> Op {
    Op::Bridges { who: OWNER.into(), add: add.to_vec(), rem: rem.to_vec() }
}
/// one collection of an amount under every configuration
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Split {
    set: Set,
    #[serde(with = "s128")]
    v: u128,
    #[serde(with = "s128")]
    fee: u128,
}
fn check_split(c: &Split, cov: &mut Cov) -> Result<(), Viol> {
    let m = model("split", &c.set, &[], |_, _| vec![]);
    let mut s = m.s0.clone();
    m.audit(&s)?;
    // fees of the development fund's token that nobody asked to collect
    for op in [arr(0, c.v), arr(4, 5000), arr(1, c.fee), col(&[(0, None), (1, None)]), wait(1, 1), arr(0, 7), col(&[])] {
        if matches!(op, Op::Arrive { v: 0, .. }) {
            continue;
        }
        if let Some(x) = m.run(&s, &op, cov)? {
            s = x;
        }
        m.audit(&s)?;
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "E01",
            scenarios: |t| {
                let flow = |_: &M, _: &S| {
                    vec![
                        arr(0, 1_000_003),
                        arr(1, 70_001),
                        arr(3, 9_999_999),
                        arr(4, 1_234_567),
                        arr(2, 500_009),
                        col(&[]),
                        col(&[(1, None), (0, None)]),
                        col(&[(1, Some(70_000)), (2, Some(100_000)), (3, Some(1_000_000))]),
                        col(&[(3, None), (2, None)]),
                        col(&[(4, Some(1_000_000))]),
                        ch(Ch::Gp(0)),
                        ch(Ch::Gp(100)),
                        ch(Ch::Cut(33)),
                        ch(Ch::Dev(Some("0.1".into()))),
                        ch(Ch::Dev(None)),
                        ch(Ch::Gov(false)),
                        br(&[(2, 1)], &[]),
                    ]
                };
                let bridge = [br(&[(2, 1)], &[])];
                let locked = |_: &M, _: &S| {
                    vec![
                        arr(0, 1_000_003),
                        arr(0, 2),
                        arr(1, 70_001),
                        col(&[]),
                        col(&[(1, None)]),
                        Op::Enable { who: OWNER.into(), n: 3 },
                        Op::Enable { who: OWNER.into(), n: 1000 },
                        Op::Enable { who: BOB.into(), n: 3 },
                        wait(5, 1),
                        wait(50, 7),
                    ]
                };
                let mut dev = PLAIN.clone();
                dev.dev = Some("0.25".into());
                dev.cut = Some(20);
                dev.enabled = false;
                let mut cw = PLAIN.clone();
                cw.cw20 = true;
                cw.cut = Some(7);
                let mut off = PLAIN.clone();
                off.enabled = false;
                let mut none = dev.clone();
                none.staking = false;
                none.gp = 100;
                let running = [arr(0, 10_007), col(&[]), Op::Enable { who: OWNER.into(), n: 10 }, wait(5, 1)];
                // less than one unit per block
                let trickle = [arr(0, 20), col(&[]), Op::Enable { who: OWNER.into(), n: 1000 }];
                let mut by_default = PLAIN.clone();
                by_default.default = Some(1);
                let mut cases = vec![];
                for cw20 in [false, true] {
                    for staking in [true, false] {
                        for (gov, gp) in [(false, 0), (true, 0), (true, 1), (true, 33), (true, 67), (true, 100)] {
                            if !staking && gp != 100 {
                                continue;
                            }
                            for cut in [None, Some(1), Some(33), Some(50)] {
                                for dev in [None, Some("0.000001"), Some("0.1"), Some("0.333333333333333333"), Some("1")] {
                                    for enabled in [true, false] {
                                        for v in [0, 1, 2, 3, 99, 100, 101, 12_345, 10_000_000_000] {
                                            for fee in if t { vec![0, 49, 1000, 777_777] } else { vec![0, 777_777] } {
                                                cases.push(Split { set: Set { cw20, staking, gov, gp, cut, dev: dev.map(|x| x.to_string()), cooldown: false, default: None, enabled }, v, fee });
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                vec![
                    bounded(model("E01:flow", &PLAIN, &bridge, flow), if t { 6 } else { 5 }),
                    bounded(model("E01:cw20", &cw, &bridge, flow), if t { 4 } else { 3 }),
                    bounded(model("E01:locked", &off, &[], locked), if t { 7 } else { 5 }),
                    bounded(model("E01:running", &dev, &running, locked), if t { 6 } else { 4 }),
                    bounded(model("E01:trickle", &off, &trickle, locked), if t { 6 } else { 5 }),
                    bounded(model("E01:default", &by_default, &[], flow), if t { 5 } else { 4 }),
                    bounded(model("E01:without-staking", &none, &running, locked), if t { 6 } else { 4 }),
                    grid("E01:splits", cases, check_split),
                ]
            },
            assumptions: &["the reward token is a cosmos coin or a cw20-base token", "governance accepts transfers", "the reward token itself is not listed as seizable while released gradually"],
        },
        Prop {
            id: "E02",
            scenarios: |t| {
                let cool = |_: &M, _: &S| {
                    let mut v = vec![arr(1, 70_001), arr(0, 500), col(&[(1, Some(1000))]), Op::Collect { who: OWNER.into(), l: vec![(1, None)] }, Op::Collect { who: ALICE.into(), l: vec![] }];
                    v.extend([wait(1, 1), wait(28, 5), wait(29, 5), wait(30, 5), wait(31, 6), wait(599, 100)]);
                    for c in [29, 30, 600, 601] {
                        v.push(ch(Ch::Cooldown(c)));
                    }
                    v
                };
                let routes = |_: &M, _: &S| {
                    let mut v = vec![arr(8, 80_001), arr(2, 70_001), arr(3, 90_001), arr(6, 1000)];
                    v.extend([br(&[(2, 1)], &[]), br(&[(5, 2)], &[]), br(&[(8, 5)], &[]), br(&[(7, 8)], &[]), br(&[(3, 1)], &[]), br(&[(1, 2)], &[]), br(&[(1, 1)], &[]), br(&[(6, 1)], &[]), br(&[(1, 0)], &[]), br(&[], &[2]), br(&[(3, 0), (5, 1)], &[3])]);
                    v.extend([ch(Ch::Default(1)), ch(Ch::Default(2)), Op::Dereg(0), Op::Dereg(3)]);
                    v.extend([col(&[(8, None)]), col(&[(2, None), (3, Some(10_000))]), col(&[(6, None)]), col(&[(2, None), (2, None)])]);
                    v
                };
                let chain = [br(&[(2, 1)], &[]), br(&[(5, 2)], &[]), arr(8, 80_001), arr(7, 90_001), arr(5, 70_000), arr(1, 50_000)];
                let deep = |_: &M, _: &S| {
                    vec![
                        br(&[(8, 5)], &[]),
                        br(&[(7, 8)], &[]),
                        br(&[(1, 2)], &[]),
                        br(&[(2, 5)], &[]),
                        br(&[], &[2]),
                        br(&[(5, 8)], &[5]),
                        Op::Dereg(0),
                        // the longest route of all
                        ch(Ch::Default(8)),
                        col(&[(8, None)]),
                        col(&[(7, None)]),
                        col(&[(7, None), (5, Some(10)), (1, Some(20))]),
                        col(&[(1, Some(20))]),
                        col(&[(5, Some(10_000))]),
                    ]
                };
                let seize = |_: &M, _: &S| {
                    let mut v = vec![arr(0, 1000), arr(1, 70_001), arr(3, 999)];
                    for l in [vec![], vec![1], vec![3, 6], vec![0, 1, 3]] {
                        v.push(Op::SeizeCfg { who: OWNER.into(), to: true, l: l.clone() });
                        v.push(Op::SeizeCfg { who: OWNER.into(), to: false, l });
                    }
                    v.push(Op::SeizeCfg { who: ALICE.into(), to: true, l: vec![1] });
                    v.push(Op::SeizeCfg { who: SEIZER.into(), to: true, l: vec![1] });
                    for l in [vec![], vec![(1, None)], vec![(1, Some(100))], vec![(1, Some(0))], vec![(3, Some(1_000_000)), (6, None)], vec![(1, None), (3, Some(5))], vec![(1, Some(5)), (1, Some(6))], vec![(0, None)], vec![(1, None), (1, None)], vec![(2, None)]] {
                        v.push(Op::Seize { who: BOB.into(), l });
                    }
                    v.push(col(&[(1, Some(10))]));
                    v
                };
                let roles = |_: &M, _: &S| {
                    let mut v = vec![arr(1, 5_000), arr(0, 1000), wait(100, 10)];
                    for who in [ALICE, DEV, SEIZER] {
                        let w = || who.to_string();
                        for c in [Ch::Gp(1), Ch::Gov(false), Ch::Cut(50), Ch::Dev(Some("1".into())), Ch::Dev(None), Ch::Spread("0.5".into()), Ch::Cooldown(600), Ch::Default(2)] {
                            v.push(Op::Change { who: w(), c });
                        }
                        v.extend([Op::Bridges { who: w(), add: vec![(2, 1)], rem: vec![] }, Op::Bridges { who: w(), add: vec![], rem: vec![1] }, Op::Enable { who: w(), n: 1 }]);
                    }
                    for who in [ALICE, OWNER] {
                        for astro in [true, false] {
                            v.push(Op::Inner { who: who.into(), astro });
                        }
                    }
                    for c in [Ch::Gp(101), Ch::Cut(51), Ch::Cut(0), Ch::Dev(Some("0".into())), Ch::Dev(Some("1.000000000000000001".into())), Ch::Spread("0".into()), Ch::Spread("0.500000000000000001".into()), Ch::Spread("0.5".into()), Ch::Cooldown(45)] {
                        v.push(ch(c));
                    }
                    v.push(col(&[(1, None)]));
                    v
                };
                let spread = |_: &M, _: &S| vec![arr(1, RES / 4), arr(2, RES / 4), arr(1, 100_000), col(&[(1, None)]), col(&[(2, None)]), col(&[(1, Some(10_000)), (2, Some(20_000))]), ch(Ch::Spread("0.5".into())), ch(Ch::Spread("0.05".into())), br(&[(2, 1)], &[])];
                let mut c = PLAIN.clone();
                c.cooldown = true;
                let mut sz = PLAIN.clone();
                sz.enabled = false;
                vec![
                    bounded(model("E02:cooldown", &c, &[], cool), if t { 7 } else { 5 }),
                    bounded(model("E02:routes", &PLAIN, &[], routes), if t { 5 } else { 4 }),
                    bounded(model("E02:deep", &PLAIN, &chain, deep), if t { 6 } else { 4 }),
                    bounded(model("E02:seize", &sz, &[arr(1, 70_001)], seize), if t { 5 } else { 4 }),
                    bounded(model("E02:roles", &c, &[br(&[(1, 0)], &[])], roles), if t { 4 } else { 3 }),
                    bounded(model("E02:spread", &PLAIN, &[], spread), if t { 7 } else { 5 }),
                ]
            },
            assumptions: &["as E01"],
        },
    ]
}
