//! D01-D05: the incentives (generator) contract, compared with an exact account of who earned what.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use cosmwasm_std::Uint512;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type N = Uint512;
fn n(x: u128) -> N {
    N::from(x)
}
/// fixed point of the exact account
fn sc() -> N {
    n(10u128.pow(36))
}
fn e18() -> N {
    n(10u128.pow(18))
}
fn fl(x: N) -> u128 {
    let v = x / sc();
    cosmwasm_std::Uint128::try_from(v).unwrap().u128()
}

const FEE_DENOM: &str = "ufee";
const FEE_AMT: u128 = 250;
/// funds the protocol reward
const HOLDER: &str = "wasm1holder";
const PLENTY: u128 = 1 << 90;

pub struct Sys {
    pub inc: String,
    pub vest: String,
    pub factory: String,
    pub pools: Vec<Pool>,
    /// LP token of each pool
    pub lps: Vec<Tok>,
    /// tokens given as external rewards
    pub rew: Vec<Tok>,
}
/// replaces the LP token of a new pair with a cw20 token, as pairs created by older versions have
pub fn legacy_lp(w: &mut World, p: &mut Pool) {
    let t = w
        .init(
            OWNER,
            CW20,
            &json!({"name": "LP token", "symbol": "uLP", "decimals": 6, "mint": {"minter": p.addr},
                "initial_balances": ([ALICE, BOB, SEED].map(|a| json!({"address": a, "amount": "1000000000000"})))}),
            &[],
        )
        .unwrap();
    let raw = w.contracts[p.addr.as_str()].storage.get(b"config".as_slice()).unwrap().clone();
    let mut v: Value = serde_json::from_slice(&raw).unwrap();
    v["pair_info"]["liquidity_token"] = json!(t);
    w.poke(&p.addr, b"config", &serde_json::to_vec(&v).unwrap());
    p.lp = t;
}
pub fn system(fee: bool, start: u64) -> (World, Sys) {
    let mut w = World::new();
    w.time = start;
    let us = [SEED, ALICE, BOB];
    for a in us {
        for t in ["uaaa", "ubbb", "uccc", "urew", "ur3", "ur4", "ur5", "ur6", "ur7", "ur8", ASTRO, FEE_DENOM, "uother"] {
            w.fund(a, t, 1 << 100);
        }
    }
    let c = new_cw20(&mut w, "Reward", 6, &us.map(|a| (a, 1 << 100)));
    let reg = new_registry(&mut w, &[("uaaa".into(), 6), ("ubbb".into(), 6), ("uccc".into(), 6)]);
    let f = new_factory(&mut w, &reg, [Kind::Xyk, Kind::Stable].map(|k| pair_config(k, 30, 3333)).to_vec(), Some(FEE), None);
    let v = new_vesting(&mut w, &native(ASTRO));
    let i = new_incentives(&mut w, &f, &native(ASTRO), &v, fee.then_some((FEE_AMT, FEE_DENOM)));
    w.fund(OWNER, ASTRO, PLENTY);
    w.exec_json(
        OWNER,
        &v,
        json!({"register_vesting_accounts": {"vesting_accounts": [{"address": i, "schedules": [{"start_point": {"time": 1_600_000_000u64, "amount": PLENTY.to_string()}}]}]}}),
        &[coin(PLENTY, ASTRO)],
    )
    .unwrap();
    w.exec_json(OWNER, &f, json!({"update_config": {"generator_address": i}}), &[]).unwrap();
    let mut pools = vec![];
    for (k, a, b, legacy) in [(Kind::Xyk, "uaaa", "ubbb", false), (Kind::Xyk, "ubbb", "uccc", true), (Kind::Stable, "uaaa", "uccc", false)] {
        let mut cfg = Cfg::new(k);
        cfg.seed = if legacy { vec![] } else { vec![1_000_000_000, 1_000_000_000] };
        let mut p = create_pool(&mut w, &cfg, &f, Some(i.clone()), &[native(a), native(b)]);
        if legacy {
            legacy_lp(&mut w, &mut p);
        } else {
            for u in [ALICE, BOB] {
                p.provide(&mut w, u, &[500_000_000, 500_000_000], json!({})).unwrap();
            }
        }
        pools.push(p);
    }
    let lps: Vec<Tok> = pools.iter().enumerate().map(|(i, p)| if i == 1 { Tok::T(p.lp.clone()) } else { native(&p.lp) }).collect();
    let mut rew = vec![native("urew"), Tok::T(c.clone()), native(ASTRO), lps[0].clone(), lps[1].clone()];
    rew.extend(["ur3", "ur4", "ur5", "ur6", "ur7", "ur8"].map(native));
    for t in [&c, &pools[1].lp] {
        for u in us {
            w.exec_json(u, t, json!({"increase_allowance": {"spender": i, "amount": "1000000000000000000000000"}}), &[]).unwrap();
        }
    }
    w.fund(FEE, ASTRO, 1);
    (w, Sys { inc: i, vest: v, factory: f, pools, lps, rew })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Deposit { who: String, p: usize, #[serde(with = "s128")] v: u128, to: Option<String> },
    Withdraw { who: String, p: usize, #[serde(with = "s128")] v: u128 },
    Claim { who: String, ps: Vec<usize> },
    Incent { who: String, p: usize, r: usize, #[serde(with = "s128")] v: u128, n: u64, pay: bool },
    /// two schedules in one call
    Many(Vec<(usize, usize, u64, u64)>),
    Remove { p: usize, r: usize, bypass: bool },
    Orphans { limit: Option<u8> },
    Setup(Vec<(usize, u64)>),
    Rate(u64),
    Dereg(usize),
    Block(Vec<usize>),
    Unblock(Vec<usize>),
    /// disables the reward of all pools of a type at the factory
    Type { stable: bool, off: bool },
    Deactivate,
    Donate { p: usize },
    Wait(u64),
    /// moves to this many seconds after the next weekly boundary
    Boundary(i64),
}

/// key: pool, reward: None is the protocol's
type PR = (usize, Option<usize>);
#[derive(Clone, Default, Hash)]
pub struct Ghost {
    pub last: u64,
    pub stakes: BTreeMap<(usize, String), u128>,
    /// (end, rate per second in 1e-18)
    pub scheds: BTreeMap<(usize, usize), Vec<(u64, u128)>>,
    pub rps: BTreeMap<usize, u128>,
    pub alloc: BTreeMap<usize, u64>,
    pub rate: u64,
    /// emitted while nobody staked, to be shared by the next stakers (1e-36)
    pub bucket: BTreeMap<PR, [u8; 64]>,
    pub earned: BTreeMap<(usize, String, Option<usize>), [u8; 64]>,
    pub paid: BTreeMap<(usize, String, String), u128>,
    /// how many times something was rounded down when paid
    pub slack: BTreeMap<(usize, String, String), u64>,
    pub ends: BTreeMap<PR, u64>,
    /// what the owner may fetch, and how many times it was rounded down
    pub orphans: BTreeMap<String, u128>,
    pub dust: BTreeMap<String, u64>,
    pub known: BTreeSet<usize>,
    pub dereg: BTreeSet<usize>,
    pub blocked: BTreeSet<usize>,
    pub off: BTreeSet<bool>,
    /// upcoming emissions given up for good by an emergency removal
    pub stuck: BTreeMap<String, u128>,
    pub donated: BTreeMap<usize, u128>,
    /// paid by the incentives contract itself, per asset
    pub ext: BTreeMap<String, u128>,
}
fn g(b: &[u8; 64]) -> N {
    N::from_be_bytes(*b)
}
impl Ghost {
    fn get(m: &BTreeMap<PR, [u8; 64]>, k: &PR) -> N {
        m.get(k).map(g).unwrap_or_default()
    }
    pub fn total(&self, p: usize) -> u128 {
        self.stakes.iter().filter(|(k, _)| k.0 == p).map(|x| *x.1).sum()
    }
    fn live(&self, p: usize, r: usize) -> bool {
        self.scheds.get(&(p, r)).is_some_and(|v| v.iter().any(|x| x.0 > self.last))
    }
    fn live_count(&self, p: usize) -> usize {
        self.scheds.iter().filter(|(k, v)| k.0 == p && v.iter().any(|x| x.0 > self.last)).count()
    }
    pub fn advance(&mut self, s: &Sys, now: u64) {
        let last = self.last;
        if now == last {
            return;
        }
        let mut keys: Vec<PR> = self.rps.keys().map(|p| (*p, None)).collect();
        keys.extend(self.scheds.keys().map(|(p, r)| (*p, Some(*r))));
        for k in keys {
            let mut e = N::zero();
            let mut finished = false;
            match k.1 {
                None => e = n(self.rps[&k.0]) * n((now - last) as u128) * e18(),
                Some(r) => {
                    let v = self.scheds.get_mut(&(k.0, r)).unwrap();
                    for (end, rps) in v.iter() {
                        e += n(*rps) * n((now.min(*end).saturating_sub(last)) as u128) * e18();
                    }
                    v.retain(|x| x.0 > now);
                    finished = v.is_empty();
                }
            }
            e += Self::get(&self.bucket, &k);
            self.bucket.remove(&k);
            let total = self.total(k.0);
            if total > 0 {
                for ((p, who), st) in &self.stakes {
                    if *p == k.0 {
                        let b = self.earned.entry((*p, who.clone(), k.1)).or_insert([0; 64]);
                        *b = (g(b) + e * n(*st) / n(total)).to_be_bytes();
                    }
                }
            } else if finished {
                let id = s.rew[k.1.unwrap()].id().to_string();
                if fl(e) > 0 {
                    *self.orphans.entry(id.clone()).or_default() += fl(e);
                    *self.dust.entry(id).or_default() += 1;
                }
            } else if !e.is_zero() {
                self.bucket.insert(k, e.to_be_bytes());
            }
            if finished {
                self.scheds.remove(&(k.0, k.1.unwrap()));
                *self.ends.entry(k).or_default() += 1;
            }
        }
        self.last = now;
    }
    fn reward_id<'a>(&self, s: &'a Sys, r: Option<usize>) -> &'a str {
        match r {
            None => ASTRO,
            Some(r) => s.rew[r].id(),
        }
    }
    /// what a user earned in a pool of one asset, exactly
    fn due(&self, s: &Sys, p: usize, who: &str, id: &str) -> N {
        self.earned.iter().filter(|(k, _)| k.0 == p && k.1 == who && self.reward_id(s, k.2) == id).map(|x| g(x.1)).fold(N::zero(), |a, b| a + b)
    }
    fn set_rates(&mut self) {
        for v in self.rps.values_mut() {
            *v = 0;
        }
        let sum: u64 = self.alloc.values().sum();
        for (p, a) in &self.alloc {
            let v = self.rate as u128 * *a as u128 * 10u128.pow(18) / sum as u128;
            self.rps.insert(*p, v);
        }
    }
    /// future emissions of one asset, in all pools
    fn future(&self, s: &Sys, id: &str) -> N {
        let mut e = N::zero();
        for ((_, r), v) in &self.scheds {
            if s.rew[*r].id() == id {
                for (end, rps) in v {
                    e += n(*rps) * n(end.saturating_sub(self.last) as u128) * e18();
                }
            }
        }
        for ((_, r), b) in &self.bucket {
            if r.is_some_and(|r| s.rew[r].id() == id) {
                e += g(b);
            }
        }
        e
    }
}
#[derive(Clone)]
pub struct S {
    pub w: World,
    pub g: Ghost,
}
type Alpha = Arc<dyn Fn(&M, &S) -> Vec<Op> + Send + Sync>;
pub struct M {
    name: String,
    s0: S,
    pub sys: Arc<Sys>,
    alpha: Alpha,
    /// run everything to the end in every state
    drain: bool,
}

pub fn pending(w: &World, s: &Sys, p: usize, who: &str) -> Result<BTreeMap<String, u128>, String> {
    let v = w.q(&s.inc, json!({"pending_rewards": {"lp_token": s.lps[p].id(), "user": who}}))?;
    let mut m = BTreeMap::new();
    for a in v.as_array().ok_or("no list")? {
        let id = a["info"]["native_token"]["denom"].as_str().or(a["info"]["token"]["contract_addr"].as_str()).unwrap();
        if u(&a["amount"]) > 0 {
            *m.entry(id.to_string()).or_default() += u(&a["amount"]);
        }
    }
    Ok(m)
}
impl Op {
    pub fn send(&self, s: &Sys, w: &mut World) -> Result<Tx, String> {
        let inc = |w: &mut World, who: &str, m: Value, f: &[cosmwasm_std::Coin]| w.exec_json(who, &s.inc, m, f);
        match self {
            Op::Deposit { who, p, v, to } => {
                let m = json!({"deposit": {"recipient": to}});
                match &s.lps[*p] {
                    Tok::N(d) => inc(w, who, m, &[coin(*v, d)]),
                    Tok::T(t) => {
                        // half of the calls use the older form of the message
                        let m = match to {
                            Some(x) if v % 2 == 0 => json!({"deposit_for": x}),
                            _ => m,
                        };
                        w.exec_json(who, t, json!({"send": {"contract": s.inc, "amount": v.to_string(), "msg": b64(&m)}}), &[])
                    }
                }
            }
            Op::Withdraw { who, p, v } => inc(w, who, json!({"withdraw": {"lp_token": s.lps[*p].id(), "amount": v.to_string()}}), &[]),
            Op::Claim { who, ps } => inc(w, who, json!({"claim_rewards": {"lp_tokens": ps.iter().map(|p| s.lps[*p].id()).collect::<Vec<_>>()}}), &[]),
            Op::Incent { who, p, r, v, n, pay } => {
                let mut f: BTreeMap<String, u128> = BTreeMap::new();
                if s.rew[*r].native() {
                    f.insert(s.rew[*r].id().into(), *v);
                }
                if *pay {
                    *f.entry(FEE_DENOM.into()).or_default() += FEE_AMT;
                }
                let f: Vec<_> = f.iter().map(|(d, v)| coin(*v, d)).collect();
                inc(w, who, json!({"incentivize": {"lp_token": s.lps[*p].id(), "schedule": {"reward": s.rew[*r].asset(*v), "duration_periods": n}}}), &f)
            }
            Op::Many(l) => {
                let mut f: BTreeMap<String, u128> = BTreeMap::new();
                let mut m = vec![];
                for (p, r, v, n) in l {
                    if s.rew[*r].native() {
                        *f.entry(s.rew[*r].id().into()).or_default() += *v as u128;
                    }
                    m.push(json!([s.lps[*p].id(), {"reward": s.rew[*r].asset(*v as u128), "duration_periods": n}]));
                }
                let f: Vec<_> = f.iter().map(|(d, v)| coin(*v, d)).collect();
                inc(w, BOB, json!({"incentivize_many": m}), &f)
            }
            Op::Remove { p, r, bypass } => inc(
                w,
                OWNER,
                json!({"remove_reward_from_pool": {"lp_token": s.lps[*p].id(), "reward": s.rew[*r].id(), "bypass_upcoming_schedules": bypass, "receiver": CAROL}}),
                &[],
            ),
            Op::Orphans { limit } => inc(w, OWNER, json!({"claim_orphaned_rewards": {"limit": limit, "receiver": CAROL}}), &[]),
            Op::Setup(l) => inc(w, OWNER, json!({"setup_pools": {"pools": l.iter().map(|(p, a)| json!([s.lps[*p].id(), a.to_string()])).collect::<Vec<_>>()}}), &[]),
            Op::Rate(x) => inc(w, OWNER, json!({"set_tokens_per_second": {"amount": x.to_string()}}), &[]),
            Op::Dereg(p) => w.exec_json(OWNER, &s.factory, json!({"deregister": {"asset_infos": s.pools[*p].toks.iter().map(|t| t.info()).collect::<Vec<_>>()}}), &[]),
            Op::Block(l) => inc(w, GUARDIAN, json!({"update_blocked_tokenslist": {"add": l.iter().map(|t| tok(s, *t).info()).collect::<Vec<_>>()}}), &[]),
            Op::Unblock(l) => inc(w, OWNER, json!({"update_blocked_tokenslist": {"remove": l.iter().map(|t| tok(s, *t).info()).collect::<Vec<_>>()}}), &[]),
            Op::Type { stable, off } => {
                let mut c = pair_config(if *stable { Kind::Stable } else { Kind::Xyk }, 30, 3333);
                c["is_generator_disabled"] = json!(off);
                w.exec_json(OWNER, &s.factory, json!({"update_pair_config": {"config": c}}), &[])
            }
            Op::Deactivate => inc(w, BOB, json!({"deactivate_blocked_pools": {}}), &[]),
            Op::Donate { p } => match &s.lps[*p] {
                Tok::N(d) => w.send(ALICE, &s.inc, d, 999).map(|_| Tx::default()),
                Tok::T(t) => w.exec_json(ALICE, t, json!({"transfer": {"recipient": s.inc, "amount": "999"}}), &[]),
            },
            Op::Wait(x) => {
                w.advance(*x, x / 5 + 1);
                Ok(Tx::default())
            }
            Op::Boundary(d) => {
                let next = EPOCH0 + ((w.time - EPOCH0) / WEEK + 1) * WEEK;
                let t = (next as i64 + d) as u64;
                w.advance(t - w.time, 1000);
                Ok(Tx::default())
            }
        }
    }
}
/// tokens that can be blocked: the pools' tokens, then the rewards
const PT: [&str; 3] = ["uaaa", "ubbb", "uccc"];
fn tok(s: &Sys, t: usize) -> Tok {
    if t < 3 {
        native(PT[t])
    } else {
        s.rew[t - 3].clone()
    }
}
pub fn pool_toks(p: usize) -> [usize; 2] {
    [[0, 1], [1, 2], [0, 2]][p]
}
fn end_of(now: u64, periods: u64) -> u64 {
    EPOCH0 + ((now - EPOCH0) / WEEK + 1 + periods) * WEEK
}

impl M {
    /// the effect of an operation according to the exact account; false if it has to be refused
    fn predict(&self, gh: &mut Ghost, op: &Op, e: &mut Exp, w: &World) -> bool {
        let s = &self.sys;
        let now = w.time;
        let id = |r: usize| s.rew[r].id().to_string();
        match op {
            Op::Deposit { who, p, v, to } => {
                if gh.dereg.contains(p) || *v == 0 {
                    return false;
                }
                let st = to.as_ref().unwrap_or(who);
                e.mv(who, &s.inc, s.lps[*p].id(), *v);
                *gh.stakes.entry((*p, st.clone())).or_default() += v;
                gh.known.insert(*p);
            }
            Op::Withdraw { who, p, v } => {
                let k = (*p, who.clone());
                let Some(x) = gh.stakes.get(&k).copied() else { return false };
                // nobody can withdraw more than they staked; the chain refuses to move nothing
                if *v > x || *v == 0 {
                    return false;
                }
                e.mv(&s.inc, who, s.lps[*p].id(), *v);
                gh.stakes.insert(k.clone(), x - v);
                if x == *v {
                    gh.stakes.remove(&k);
                }
            }
            Op::Claim { who, ps } => {
                let mut d = ps.clone();
                d.sort();
                d.dedup();
                return d.len() == ps.len() && ps.iter().all(|p| gh.stakes.contains_key(&(*p, who.clone())));
            }
            Op::Incent { who, p, r, v, n, pay } => {
                let l = [(*p, *r, *v, *n)];
                return self.incent(gh, who, &l, *pay, e, w);
            }
            Op::Many(l) => {
                let l: Vec<_> = l.iter().map(|x| (x.0, x.1, x.2 as u128, x.3)).collect();
                return self.incent(gh, BOB, &l, false, e, w);
            }
            Op::Remove { p, r, bypass } => {
                if !gh.live(*p, *r) {
                    return false;
                }
                let v = gh.scheds.remove(&(*p, *r)).unwrap();
                let next = v.iter().map(|x| x.0).min().unwrap();
                let mut now_part = Ghost::get(&gh.bucket, &(*p, Some(*r)));
                let mut later = N::zero();
                for (end, rps) in &v {
                    now_part += n(*rps) * n((next - now) as u128) * e18();
                    later += n(*rps) * n((end - next) as u128) * e18();
                }
                gh.bucket.remove(&(*p, Some(*r)));
                let back = if *bypass {
                    if later > N::zero() {
                        *gh.stuck.entry(id(*r)).or_default() += fl(later) + 1;
                    }
                    fl(now_part)
                } else {
                    fl(now_part + later)
                };
                *gh.dust.entry(id(*r)).or_default() += 1;
                *gh.ends.entry((*p, Some(*r))).or_default() += 1;
                e.mv(&s.inc, CAROL, s.rew[*r].id(), back);
            }
            Op::Orphans { .. } => {}
            Op::Setup(l) => {
                let mut d: Vec<_> = l.iter().map(|x| x.0).collect();
                d.sort();
                d.dedup();
                if d.len() != l.len() || l.iter().any(|(p, a)| *a == 0 || gh.dereg.contains(p) || gh.off.contains(&(*p == 2)) || pool_toks(*p).iter().any(|t| gh.blocked.contains(t))) {
                    return false;
                }
                gh.alloc = l.iter().copied().collect();
                gh.known.extend(d);
                gh.set_rates();
            }
            Op::Rate(x) => {
                gh.rate = *x;
                gh.set_rates();
            }
            Op::Dereg(p) => {
                if !gh.dereg.insert(*p) {
                    return false;
                }
                if gh.alloc.remove(p).is_some() {
                    gh.set_rates();
                }
            }
            Op::Block(l) => {
                let mut d = l.clone();
                d.sort();
                d.dedup();
                // the protocol's own token cannot be blocked
                if d.len() != l.len() || l.iter().any(|t| gh.blocked.contains(t) || tok(s, *t).id() == ASTRO) {
                    return false;
                }
                gh.blocked.extend(l);
                let was = gh.alloc.len();
                let b = gh.blocked.clone();
                gh.alloc.retain(|p, _| !pool_toks(*p).iter().any(|t| b.contains(t)));
                if gh.alloc.len() != was {
                    gh.set_rates();
                }
            }
            Op::Unblock(l) => {
                let mut d = l.clone();
                d.sort();
                d.dedup();
                if d.len() != l.len() || l.iter().any(|t| !gh.blocked.contains(t)) {
                    return false;
                }
                for t in l {
                    gh.blocked.remove(t);
                }
            }
            Op::Type { stable, off } => {
                if *off {
                    gh.off.insert(*stable);
                } else {
                    gh.off.remove(stable);
                }
            }
            Op::Deactivate => {
                let off = gh.off.clone();
                let was = gh.alloc.len();
                gh.alloc.retain(|p, _| !off.contains(&(*p == 2)));
                if was != gh.alloc.len() {
                    gh.set_rates();
                }
            }
            Op::Donate { p } => {
                e.mv(ALICE, &s.inc, s.lps[*p].id(), 999);
                *gh.donated.entry(*p).or_default() += 999;
            }
            Op::Wait(_) | Op::Boundary(_) => {}
        }
        true
    }
    fn incent(&self, gh: &mut Ghost, who: &str, l: &[(usize, usize, u128, u64)], pay: bool, e: &mut Exp, w: &World) -> bool {
        let s = &self.sys;
        let now = w.time;
        let fee_on = !w.q(&s.inc, json!({"config": {}})).unwrap()["incentivization_fee_info"].is_null();
        let mut fees = 0;
        for (p, r, v, k) in l {
            if *k == 0 || *k > 25 || gh.dereg.contains(p) || gh.blocked.contains(&(r + 3)) {
                return false;
            }
            if PT.iter().position(|t| *t == s.rew[*r].id()).is_some_and(|t| gh.blocked.contains(&t)) {
                return false;
            }
            let end = end_of(now, *k);
            let rps = v * 10u128.pow(18) / (end - now) as u128;
            if rps < 10u128.pow(18) {
                return false;
            }
            if !gh.live(*p, *r) {
                if s.rew[*r].id() != ASTRO {
                    // at most five, the protocol's token aside
                    if gh.live_count(*p) >= 5 {
                        return false;
                    }
                    if fee_on {
                        fees += 1;
                    }
                }
                gh.scheds.insert((*p, *r), vec![]);
            }
            gh.scheds.get_mut(&(*p, *r)).unwrap().push((end, rps));
            gh.known.insert(*p);
            e.mv(who, &s.inc, s.rew[*r].id(), *v);
            *gh.dust.entry(s.rew[*r].id().into()).or_default() += 1;
        }
        if fees != pay as u128 {
            return false;
        }
        if fees > 0 {
            e.mv(who, FEE, FEE_DENOM, FEE_AMT);
        }
        true
    }
    fn claimed(op: &Op) -> Option<(String, Vec<usize>)> {
        match op {
            Op::Deposit { who, p, to, .. } => Some((to.as_ref().unwrap_or(who).clone(), vec![*p])),
            Op::Withdraw { who, p, .. } => Some((who.clone(), vec![*p])),
            Op::Claim { who, ps } => Some((who.clone(), ps.clone())),
            _ => None,
        }
    }
    fn settle(gh: &mut Ghost, s: &Sys, p: usize, who: &str, pend: &BTreeMap<String, u128>) {
        for (id, v) in pend {
            *gh.paid.entry((p, who.into(), id.clone())).or_default() += v;
        }
        for r in [None].into_iter().chain((0..s.rew.len()).map(Some)) {
            if gh.earned.contains_key(&(p, who.to_string(), r)) {
                let id = gh.reward_id(s, r).to_string();
                let ends = gh.ends.get(&(p, r)).copied().unwrap_or(0);
                *gh.slack.entry((p, who.into(), id)).or_default() += 1 + ends;
            }
        }
    }
    fn run(&self, s0: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let s = &self.sys;
        let mut nx = s0.clone();
        let b0 = balances(&s0.w);
        let mut e = Exp::default();
        let mut gh = s0.g.clone();
        // rewards paid along with the operation
        let mut pays = vec![];
        if let Some((who, ps)) = Self::claimed(op) {
            for p in ps {
                pays.push((p, who.clone(), pending(&s0.w, s, p, &who).unwrap_or_default()));
            }
        }
        let ok = self.predict(&mut gh, op, &mut e, &s0.w);
        let r = op.send(s, &mut nx.w);
        let kind = format!("{op:?}").split([' ', '(', '{']).next().unwrap().to_string();
        let b = balances(&nx.w);
        let d = diff(&b0, &b);
        if let Op::Orphans { .. } = op {
            // pays what was written off so far, at most everything
            let Ok(_) = r else {
                vensure!(d.is_empty(), "orphans", "{op:?} was refused and moved {d:?}");
                return Ok(None);
            };
            cov.hit("orphans-paid");
            let mut e = Exp::default();
            for (id, v) in gh.orphans.clone() {
                let got = d.get(&(CAROL.to_string(), id.clone())).copied().unwrap_or(0);
                vensure!(got >= 0 && got as u128 <= v, "orphans", "the owner fetched {got} {id}, of which {v} were emitted while nobody staked");
                e.mv(&s.inc, CAROL, &id, got as u128);
                *gh.orphans.get_mut(&id).unwrap() -= got as u128;
            }
            vensure!(e.0 == d, "orphans", "{op:?} moved {d:?}");
            nx.g = gh;
            return Ok(Some(nx));
        }
        vensure!(r.is_ok() == ok, "accepted", "{op:?} should be {} but: {:?}", if ok { "accepted" } else { "refused" }, r.err());
        cov.hit(&format!("{kind}-{}", if ok { "accepted" } else { "refused" }));
        if !ok {
            vensure!(d.is_empty(), "refused", "{op:?} was refused and moved {d:?}");
            return Ok(None);
        }
        for (p, who, m) in &pays {
            for (id, v) in m {
                e.mv(&s.inc, who, id, *v);
            }
            Self::settle(&mut gh, s, *p, who, m);
        }
        // the protocol's reward may come from either source
        let mut d1 = Exp(d.clone());
        let k = (s.vest.clone(), ASTRO.to_string());
        if let Some(v) = d.get(&k) {
            d1.0.remove(&k);
            d1.add(&s.inc, ASTRO, *v);
        }
        vensure!(d1.0 == e.0, "moved", "{op:?} moved {:?} instead of {:?}", d1.0, e.0);
        if !pays.is_empty() {
            for (id, v) in pays.iter().flat_map(|x| &x.2).filter(|x| x.0 != ASTRO) {
                *gh.ext.entry(id.clone()).or_default() += v;
            }
            // what the incentives contract itself paid
            let v = d.get(&(s.inc.clone(), ASTRO.to_string())).copied().unwrap_or(0);
            *gh.ext.entry(ASTRO.into()).or_default() += -v as u128;
        }
        if nx.w.time != s0.w.time {
            gh.advance(s, nx.w.time);
        }
        nx.g = gh;
        Ok(Some(nx))
    }
    fn users(&self) -> [&'static str; 3] {
        [ALICE, BOB, HOLDER]
    }
    /// what the contract shows agrees with the exact account
    fn audit(&self, s: &S) -> Result<(), Viol> {
        let y = &self.sys;
        let gh = &s.g;
        for p in 0..y.pools.len() {
            for who in self.users() {
                let st = gh.stakes.get(&(p, who.to_string())).copied().unwrap_or(0);
                let q = s.w.q(&y.inc, json!({"deposit": {"lp_token": y.lps[p].id(), "user": who}})).unwrap();
                vensure!(u(&q) == st, "deposit", "{who} staked {st} of pool {p}, shown {q}");
                let pend = pending(&s.w, y, p, who);
                if st == 0 {
                    vensure!(pend.is_err() || pend.as_ref().is_ok_and(|m| m.is_empty()), "pending", "{who} has no stake in pool {p} and is promised {pend:?}");
                }
                let pend = pend.unwrap_or_default();
                let mut ids: BTreeSet<String> = pend.keys().cloned().collect();
                ids.extend(gh.earned.keys().filter(|k| k.0 == p && k.1 == who).map(|k| gh.reward_id(y, k.2).to_string()));
                for id in ids {
                    let k = (p, who.to_string(), id.clone());
                    let due = gh.due(y, p, who, &id);
                    let got = gh.paid.get(&k).copied().unwrap_or(0) + pend.get(&id).copied().unwrap_or(0);
                    // one more rounding for what is pending, per reward and finished run of it
                    let more: u64 = gh.ends.iter().filter(|(k, _)| k.0 == p && gh.reward_id(y, k.1) == id).map(|x| *x.1 + 1).sum::<u64>() + 2;
                    let slack = gh.slack.get(&k).copied().unwrap_or(0) + more;
                    vensure!(n(got) * sc() <= due + n(1), "share", "{who} got or is promised {got} {id} in pool {p}, earned {}", fl(due));
                    vensure!(n(got + slack as u128) * sc() >= due, "share", "{who} got or is promised only {got} {id} in pool {p}, earned {}", fl(due));
                }
            }
            let q = s.w.q(&y.inc, json!({"pool_info": {"lp_token": y.lps[p].id()}}));
            vensure!(q.is_ok() == gh.known.contains(&p), "pool", "pool {p} is shown as {q:?}");
            if let Ok(q) = q {
                vensure!(u(&q["total_lp"]) == gh.total(p), "pool", "{} staked in pool {p}, shown {q}", gh.total(p));
                let r = s.w.q(&y.inc, json!({"reward_info": {"lp_token": y.lps[p].id()}})).map_err(|e| Viol { key: "reward_info".into(), msg: e })?;
                let mut want: BTreeMap<String, String> = BTreeMap::new();
                for ((pp, r), v) in &gh.scheds {
                    if *pp == p {
                        want.insert(format!("ext {}", y.rew[*r].id()), dec18(v.iter().map(|x| x.1).sum()));
                    }
                }
                if let Some(v) = gh.rps.get(&p) {
                    want.insert("int".into(), dec18(*v));
                }
                let mut got = BTreeMap::new();
                for x in r.as_array().unwrap() {
                    let k = match &x["reward"]["ext"] {
                        Value::Null => "int".to_string(),
                        e => format!("ext {}", e["info"]["native_token"]["denom"].as_str().or(e["info"]["token"]["contract_addr"].as_str()).unwrap()),
                    };
                    got.insert(k, dec18(cosmwasm_std::Uint128::try_from(x["rps"].as_str().unwrap().parse::<cosmwasm_std::Decimal256>().unwrap().atomics()).unwrap().u128()));
                }
                vensure!(got == want, "rates", "the rates in pool {p} are {got:?} instead of {want:?}");
                if self.name.starts_with("D04") || self.name.starts_with("D05") {
                    self.shown(s, p)?;
                }
            }
        }
        let act = s.w.q(&y.inc, json!({"active_pools": {}})).unwrap();
        let got: BTreeSet<(String, u128)> = act.as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), u(&x[1]))).collect();
        let want: BTreeSet<(String, u128)> = gh.alloc.iter().map(|(p, a)| (y.lps[*p].id().to_string(), *a as u128)).collect();
        vensure!(got == want && act.as_array().unwrap().len() == want.len(), "active", "active pools {act}, should be {want:?}");
        let c = s.w.q(&y.inc, json!({"config": {}})).unwrap();
        vensure!(u(&c["total_alloc_points"]) == gh.alloc.values().sum::<u64>() as u128, "active", "total allocation {} for {want:?}", c["total_alloc_points"]);
        vensure!(u(&c["astro_per_second"]) == gh.rate as u128, "active", "rate {} instead of {}", c["astro_per_second"], gh.rate);
        let q = s.w.q(&y.inc, json!({"blocked_tokens_list": {}})).unwrap();
        let got: Vec<Value> = q.as_array().unwrap().clone();
        vensure!(got.len() == gh.blocked.len() && gh.blocked.iter().all(|t| got.contains(&tok(y, *t).info())), "blocked", "blocked tokens {q}, should be {:?}", gh.blocked);
        let q = s.w.q(&y.inc, json!({"list_pools": {}})).unwrap();
        let got: BTreeSet<&str> = q.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let want: BTreeSet<&str> = gh.known.iter().map(|p| y.lps[*p].id()).collect();
        vensure!(got == want && q.as_array().unwrap().len() == want.len(), "pools", "pools {q}, should be {want:?}");
        for p in 0..y.pools.len() {
            let q = s.w.q(&y.inc, json!({"pool_stakers": {"lp_token": y.lps[p].id()}})).unwrap();
            let got: BTreeSet<(String, u128)> = q.as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), u(&x[1]))).collect();
            let want: BTreeSet<(String, u128)> = gh.stakes.iter().filter(|(k, _)| k.0 == p).map(|(k, v)| (k.1.clone(), *v)).collect();
            vensure!(got == want && q.as_array().unwrap().len() == want.len(), "stakers", "stakers of pool {p} {q}, should be {want:?}");
        }
        // obligations are covered
        let mut ids: BTreeSet<&str> = y.lps.iter().map(|t| t.id()).collect();
        ids.extend(y.rew.iter().map(|t| t.id()));
        for id in ids {
            let t = if y.lps[1].id() == id || y.rew[1].id() == id { Tok::T(id.into()) } else { native(id) };
            let have = t.bal(&s.w, &y.inc);
            let need = self.owed(gh, id);
            // a protocol reward and a reward in the same token cannot be told apart when paid: allow for rounding
            let tol = if id == ASTRO { 1000 } else { 0 };
            vensure!(n(have + tol) * sc() >= need, "covered", "the contract has {have} of {id} and owes {}", fl(need));
            let dust = gh.dust.get(id).copied().unwrap_or(0) + gh.slack.iter().filter(|(k, _)| k.2 == id).map(|x| *x.1).sum::<u64>() + 4;
            let extra = n(have) * sc() - need.min(n(have) * sc());
            let don: u128 = gh.donated.iter().filter(|(p, _)| y.lps[**p].id() == id).map(|x| *x.1).sum::<u128>() + gh.stuck.get(id).copied().unwrap_or(0);
            vensure!(fl(extra) <= don + dust as u128 + tol, "lost", "the contract has {have} of {id} and owes only {}", fl(need));
        }
        Ok(())
    }
    /// the listed schedules of a pool and whether a listing fee is due
    fn shown(&self, s: &S, p: usize) -> Result<(), Viol> {
        let (y, gh) = (&self.sys, &s.g);
        for r in 0..y.rew.len() {
            let live = gh.scheds.get(&(p, r));
            let fee = s.w.q(&y.inc, json!({"is_fee_expected": {"lp_token": y.lps[p].id(), "reward": y.rew[r].id()}})).unwrap();
            vensure!(fee == json!(live.is_none() && y.rew[r].id() != ASTRO), "fee-expected", "fee expected for {} in pool {p}: {fee}", y.rew[r].id());
            let ask = |after: Option<u64>, limit: Option<u8>| s.w.q(&y.inc, json!({"external_reward_schedules": {"reward": y.rew[r].id(), "lp_token": y.lps[p].id(), "start_after": after, "limit": limit}}));
            let Some(v) = live else {
                vensure!(ask(None, None).is_err(), "schedules", "schedules of {} in pool {p}, which has none", y.rew[r].id());
                continue;
            };
            let mut want = vec![];
            let mut t = gh.last;
            for end in v.iter().map(|x| x.0).collect::<BTreeSet<_>>() {
                let rps: u128 = v.iter().filter(|x| x.0 >= end).map(|x| x.1).sum();
                want.push((t, end, dec18(rps)));
                t = end;
            }
            let read = |q: Value| -> Vec<(u64, u64, String)> {
                q.as_array()
                    .unwrap()
                    .iter()
                    .map(|x| {
                        let d = x["rps"].as_str().unwrap().parse::<cosmwasm_std::Decimal256>().unwrap().atomics();
                        (x["start_ts"].as_u64().unwrap(), x["end_ts"].as_u64().unwrap(), dec18(cosmwasm_std::Uint128::try_from(d).unwrap().u128()))
                    })
                    .collect()
            };
            let all = read(ask(None, None).map_err(|e| Viol { key: "schedules".into(), msg: e })?);
            vensure!(all == want, "schedules", "{} in pool {p} is listed as {all:?} instead of {want:?}", y.rew[r].id());
            for limit in [1u8, 2] {
                let mut got = vec![];
                let mut after = None;
                loop {
                    let page = read(ask(after, Some(limit)).map_err(|e| Viol { key: "schedules".into(), msg: e })?);
                    vensure!(page.len() <= limit as usize, "schedules", "{} entries in a page of {limit}", page.len());
                    let Some(x) = page.last() else { break };
                    after = Some(x.1);
                    got.extend(page);
                    if got.len() > want.len() {
                        break;
                    }
                }
                vensure!(got == want, "schedules", "{} in pool {p} by {limit} is listed as {got:?} instead of {want:?}", y.rew[r].id());
            }
        }
        Ok(())
    }
    /// stakes, rewards earned and not paid, emissions to come and written off, of one asset
    fn owed(&self, gh: &Ghost, id: &str) -> N {
        let y = &self.sys;
        let mut x = gh.future(y, id) + n(gh.orphans.get(id).copied().unwrap_or(0)) * sc();
        for ((p, _), v) in &gh.stakes {
            if y.lps[*p].id() == id {
                x += n(*v) * sc();
            }
        }
        let mut ps: BTreeMap<(usize, String), (N, u128)> = BTreeMap::new();
        for ((p, who, r), b) in &gh.earned {
            if r.is_some_and(|r| y.rew[r].id() == id) {
                ps.entry((*p, who.clone())).or_default().0 += g(b);
            }
        }
        if id == ASTRO {
            // only what is paid from the contract's own funds
            let due = ps.values().fold(N::zero(), |a, b| a + b.0);
            return x + due - (n(gh.ext.get(id).copied().unwrap_or(0)) * sc()).min(due);
        }
        for ((p, who), v) in ps.iter_mut() {
            v.1 = gh.paid.get(&(*p, who.clone(), id.to_string())).copied().unwrap_or(0);
        }
        for v in ps.values() {
            x += v.0 - (n(v.1) * sc()).min(v.0);
        }
        x
    }
    /// everyone leaves: nothing may stand in the way, and nothing may be missing or left over
    fn run_out(&self, s: &S, later: u64, cov: &mut Cov) -> Result<(), Viol> {
        let mut x = s.clone();
        if later > 0 {
            x = self.run(&x, &Op::Wait(later), cov)?.unwrap();
            self.audit(&x)?;
        }
        for ((p, who), v) in &s.g.stakes {
            match self.run(&x, &Op::Withdraw { who: who.clone(), p: *p, v: *v }, cov)? {
                Some(y) => x = y,
                None => return viol("leave", format!("{who} cannot leave pool {p}")),
            }
        }
        // touch every pool that can still be touched, so that everything is written off
        for p in 0..self.sys.pools.len() {
            if x.g.dereg.contains(&p) {
                continue;
            }
            for op in [Op::Deposit { who: BOB.into(), p, v: 2, to: None }, Op::Withdraw { who: BOB.into(), p, v: 2 }] {
                x = self.run(&x, &op, cov)?.unwrap();
            }
        }
        while let Some(y) = self.run(&x, &Op::Orphans { limit: None }, cov)? {
            x = y;
        }
        if x.g.dereg.is_empty() {
            vensure!(x.g.orphans.values().all(|v| *v == 0), "orphans", "the owner cannot fetch {:?}", x.g.orphans);
        }
        self.audit(&x)
    }
}
fn dec18(x: u128) -> String {
    format!("{}.{:018}", x / 10u128.pow(18), x % 10u128.pow(18))
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        self.s0.clone()
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        (self.alpha)(self, s)
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        self.run(s, op, cov)
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        use std::hash::{Hash, Hasher};
        let mut d = std::collections::hash_map::DefaultHasher::new();
        s.g.hash(&mut d);
        h.u64(d.finish());
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        self.audit(s)?;
        if self.drain {
            let mut c = Cov::default();
            self.run_out(s, 0, &mut c)?;
            self.run_out(s, 30 * WEEK, &mut c)?;
            cov.hit("run-out");
        }
        Ok(())
    }
}

fn model(name: &str, fee: bool, start: u64, pre: &[Op], drain: bool, alpha: impl Fn(&M, &S) -> Vec<Op> + Send + Sync + 'static) -> M {
    let (w, sys) = system(fee, start);
    let mut m = M { name: name.into(), s0: S { g: Ghost { last: w.time, ..Default::default() }, w }, sys: Arc::new(sys), alpha: Arc::new(alpha), drain };
    for op in pre {
        let mut c = Cov::default();
        match m.run(&m.s0, op, &mut c) {
            Ok(Some(s)) => m.s0 = s,
            // shown as a violation of the first state
            Ok(None) | Err(_) => {
                let mut w = m.s0.w.clone();
                let e = op.send(&m.sys, &mut w).map(|_| ());
                eprintln!("{name}: preparing with {op:?}: {e:?}");
                break;
            }
        }
    }
    m
}
fn dep(who: &str, p: usize, v: u128) -> Op {
    Op::Deposit { who: who.into(), p, v, to: None }
}
fn inc(who: &str, p: usize, r: usize, v: u128, n: u64) -> Op {
    Op::Incent { who: who.into(), p, r, v, n, pay: false }
}
/// three quarters of the stake
const MOST: u128 = u128::MAX;
fn leave(s: &S, parts: &[u128]) -> Vec<Op> {
    let mut v = vec![];
    for ((p, who), st) in &s.g.stakes {
        for k in parts {
            if *k == 0 {
                v.push(Op::Withdraw { who: who.clone(), p: *p, v: st + 1 });
            } else if *k == MOST {
                if *st > 3 {
                    v.push(Op::Withdraw { who: who.clone(), p: *p, v: st - st / 4 });
                }
            } else if st / k > 0 {
                v.push(Op::Withdraw { who: who.clone(), p: *p, v: st / k });
            }
        }
    }
    v
}
fn claims(s: &S) -> Vec<Op> {
    let mut by: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (p, who) in s.g.stakes.keys() {
        by.entry(who.clone()).or_default().push(*p);
    }
    let mut v = vec![];
    for (who, ps) in by {
        v.push(Op::Claim { who: who.clone(), ps: vec![ps[0]] });
        if ps.len() > 1 {
            v.push(Op::Claim { who, ps });
        }
    }
    v
}
/// `what` listed with pages of every size
#[derive(Clone, Debug, Serialize, Deserialize)]
struct List {
    what: usize,
    count: usize,
    limit: Option<u8>,
}
fn list_world(what: usize, count: usize) -> (World, Sys, BTreeSet<String>) {
    let (mut w, s) = system(false, T0);
    let mut all = BTreeSet::new();
    match what {
        0 => {
            for i in 0..count {
                let who = format!("wasm1staker{}", i * 7919 % 100_000);
                Op::Deposit { who: ALICE.into(), p: 0, v: 10 + i as u128, to: Some(who.clone()) }.send(&s, &mut w).unwrap();
                all.insert(json!([who, (10 + i).to_string()]).to_string());
            }
            // neither those of another pool nor those who left are listed
            for op in [dep(BOB, 1, 5), dep(BOB, 0, 5), Op::Withdraw { who: BOB.into(), p: 0, v: 5 }] {
                op.send(&s, &mut w).unwrap();
            }
        }
        1 => {
            for i in 0..count {
                let d = format!("uasset{}", i * 7919 % 100_000);
                w.fund(ALICE, &d, 1 << 60);
                let reg = w.q(&s.factory, json!({"config": {}})).unwrap()["coin_registry_address"].as_str().unwrap().to_string();
                w.exec_json(OWNER, &reg, json!({"add": {"native_coins": [[d, 6]]}}), &[]).unwrap();
                let mut cfg = Cfg::new(Kind::Xyk);
                cfg.seed = vec![];
                let p = create_pool(&mut w, &cfg, &s.factory, Some(s.inc.clone()), &[native("uaaa"), native(&d)]);
                p.provide(&mut w, ALICE, &[10_000_000, 10_000_000], json!({})).unwrap();
                w.exec_json(ALICE, &s.inc, json!({"deposit": {}}), &[coin(7, &p.lp)]).unwrap();
                all.insert(json!(p.lp).to_string());
            }
        }
        _ => {
            for i in 0..count {
                let t = if i % 3 == 0 { json!({"token": {"contract_addr": format!("wasm1token{}", i * 7919 % 100_000)}}) } else { json!({"native_token": {"denom": format!("udenom{}", i * 7919 % 100_000)}}) };
                w.exec_json(OWNER, &s.inc, json!({"update_blocked_tokenslist": {"add": [t]}}), &[]).unwrap();
                all.insert(t.to_string());
            }
        }
    }
    (w, s, all)
}
fn check_list(c: &List, cov: &mut Cov) -> Result<(), Viol> {
    let (w, s, all) = list_world(c.what, c.count);
    let most = c.limit.unwrap_or(50).min(50) as usize;
    let mut got = BTreeSet::new();
    let mut after = Value::Null;
    loop {
        let q = match c.what {
            0 => json!({"pool_stakers": {"lp_token": s.lps[0].id(), "start_after": after[0], "limit": c.limit}}),
            1 => json!({"list_pools": {"start_after": after, "limit": c.limit}}),
            _ => json!({"blocked_tokens_list": {"start_after": after, "limit": c.limit}}),
        };
        let page = w.q(&s.inc, q).map_err(|e| Viol { key: "listing".into(), msg: format!("{c:?}: {e}") })?;
        let page = page.as_array().unwrap().clone();
        vensure!(page.len() == most.min(all.len() - got.len()), "page", "{c:?}: a page has {} entries, {} are left", page.len(), all.len() - got.len());
        let Some(x) = page.last() else { break };
        after = x.clone();
        for x in &page {
            vensure!(got.insert(x.to_string()), "twice", "{c:?}: {x} is listed twice");
        }
        cov.hit("page");
    }
    vensure!(got == all, "listing", "{c:?}: listed {got:?} instead of {all:?}");
    Ok(())
}
/// LP tokens that do not belong to a registered pair
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fake {
    lp: usize,
    how: usize,
}
fn check_fake(c: &Fake, cov: &mut Cov) -> Result<(), Viol> {
    let (mut w, s) = system(false, T0);
    let cw = |w: &mut World, minter: Value| -> String {
        w.init(BOB, CW20, &json!({"name": "LP token", "symbol": "uLP", "decimals": 6, "mint": minter, "initial_balances": [{"address": BOB, "amount": "1000000000000"}]}), &[]).unwrap()
    };
    // pairs that were not created by the factory
    let own = |w: &mut World, a: &str, b: &str| -> String {
        let p = w
            .init(BOB, PAIR, &json!({"pair_type": {"xyk": {}}, "asset_infos": [native(a).info(), native(b).info()], "token_code_id": CW20, "factory_addr": s.factory, "init_params": Value::Null}), &[])
            .unwrap();
        let lp = w.q(&p, json!({"pair": {}})).unwrap()["liquidity_token"].as_str().unwrap().to_string();
        w.exec_json(BOB, &p, json!({"provide_liquidity": {"assets": [native(a).asset(1_000_000), native(b).asset(1_000_000)]}}), &[coin(1_000_000, a), coin(1_000_000, b)]).unwrap();
        lp
    };
    let t = match c.lp {
        0 => Tok::T(cw(&mut w, json!({"minter": s.pools[0].addr}))),
        1 => Tok::T(cw(&mut w, json!({"minter": BOB}))),
        2 => Tok::T(cw(&mut w, Value::Null)),
        3 => Tok::T(cw(&mut w, json!({"minter": s.factory}))),
        4 => native("uaaa"),
        5 => native("urew"),
        6 => native(ASTRO),
        7 => native(&own(&mut w, "uaaa", "ubbb")),
        8 => native(&own(&mut w, "uaaa", "uother")),
        9 => {
            let d = w.tf_new(BOB, "astroport/share", None);
            w.tf_mint(BOB, &d, 1_000_000, BOB).unwrap();
            native(&d)
        }
        10 => {
            let d = w.tf_new(&s.pools[0].addr.clone(), "astroport/sharf", None);
            w.fund(BOB, &d, 1_000_000);
            native(&d)
        }
        11 => Tok::T(s.pools[0].addr.clone()),
        // the genuine ones
        12 => s.lps[0].clone(),
        _ => s.lps[1].clone(),
    };
    let good = c.lp >= 12;
    if c.how == 1 {
        for t in [&s.rew[1]] {
            w.exec_json(BOB, t.id(), json!({"increase_allowance": {"spender": s.inc, "amount": "1000000000"}}), &[]).unwrap();
        }
    }
    let b0 = balances(&w);
    let r = match (c.how, &t) {
        (0, Tok::N(d)) => w.exec_json(BOB, &s.inc, json!({"deposit": {}}), &[coin(100, d)]),
        (0, Tok::T(t)) => w.exec_json(BOB, t, json!({"send": {"contract": s.inc, "amount": "100", "msg": b64(&json!({"deposit": {}}))}}), &[]),
        (1, t) => w.exec_json(BOB, &s.inc, json!({"incentivize": {"lp_token": t.id(), "schedule": {"reward": s.rew[1].asset(10_000_000), "duration_periods": 1}}}), &[]),
        (2, t) => w.exec_json(OWNER, &s.inc, json!({"setup_pools": {"pools": [[t.id(), "1"]]}}), &[]),
        (3, t) => w.exec_json(OWNER, &s.inc, json!({"setup_pools": {"pools": [[s.lps[2].id(), "1"], [t.id(), "1"]]}}), &[]),
        (_, t) => w.exec_json(BOB, &s.inc, json!({"claim_rewards": {"lp_tokens": [t.id()]}}), &[]),
    };
    let want = good && c.how < 4;
    vensure!(r.is_ok() == want, "eligible", "{c:?} with {t:?}: {:?}", r.map(|_| "accepted"));
    if !want {
        vensure!(balances(&w) == b0, "eligible", "{c:?} was refused and moved something");
        let q = w.q(&s.inc, json!({"list_pools": {}})).unwrap();
        vensure!(q == json!([]), "eligible", "{c:?}: pools {q}");
    }
    cov.hit(if want { "accepted" } else { "refused" });
    Ok(())
}
const T0: u64 = EPOCH0 + 4 * WEEK + 300_017;
// ---------------------------------------------------------------- the protocol's reward changes its token
#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
    Do(Op),
    /// the protocol's reward is paid in another token from now on
    Token(bool),
    /// and from another vesting contract
    Vesting(bool),
}
#[derive(Clone)]
struct TS {
    /// with and without these changes
    w: World,
    twin: World,
    /// the protocol's token, the source, as set
    at: (bool, bool),
    /// stakes
    st: BTreeMap<(usize, String), u128>,
}
/// what is earned under one set-up is neither lost nor multiplied by naming another token or source for it
struct Renamed {
    w0: World,
    sys: Arc<Sys>,
    vest2: String,
}
impl Renamed {
    fn new() -> Renamed {
        let (mut w, sys) = system(false, T0);
        let vest2 = new_vesting(&mut w, &native(ASTRO));
        w.fund(OWNER, ASTRO, PLENTY);
        w.exec_json(
            OWNER,
            &vest2,
            json!({"register_vesting_accounts": {"vesting_accounts": [{"address": sys.inc, "schedules": [{"start_point": {"time": 1_600_000_000u64, "amount": PLENTY.to_string()}}]}]}}),
            &[coin(PLENTY, ASTRO)],
        )
        .unwrap();
        for op in [Op::Rate(1_000_003), Op::Setup(vec![(2, 5), (0, 1)]), dep(ALICE, 0, 7), dep(BOB, 0, 3), Op::Wait(101)] {
            op.send(&sys, &mut w).unwrap();
        }
        Renamed { w0: w, sys: Arc::new(sys), vest2 }
    }
}
impl Model for Renamed {
    type S = TS;
    type Op = TOp;
    fn name(&self) -> String {
        "D03:renamed".into()
    }
    fn init(&self) -> TS {
        TS { w: self.w0.clone(), twin: self.w0.clone(), at: (false, false), st: [((0, ALICE.to_string()), 7), ((0, BOB.to_string()), 3)].into() }
    }
    fn ops(&self, s: &TS, _: usize) -> Vec<TOp> {
        let mut v = vec![TOp::Token(!s.at.0), TOp::Vesting(!s.at.1)];
        v.extend([Op::Setup(vec![(0, 3), (1, 1)]), Op::Setup(vec![(2, 1)]), Op::Rate(77), Op::Dereg(0), Op::Wait(1009), dep(ALICE, 0, 12), dep(BOB, 2, 5)].map(TOp::Do));
        for ((p, who), v0) in &s.st {
            v.push(TOp::Do(Op::Withdraw { who: who.clone(), p: *p, v: *v0 }));
            v.push(TOp::Do(Op::Claim { who: who.clone(), ps: vec![*p] }));
        }
        v
    }
    fn step(&self, s: &TS, op: &TOp, cov: &mut Cov) -> Result<Option<TS>, Viol> {
        let y = &self.sys;
        let mut n = s.clone();
        match op {
            TOp::Do(o) => {
                let (a, b) = (o.send(y, &mut n.w), o.send(y, &mut n.twin));
                vensure!(a.is_ok() == b.is_ok(), "renamed", "{o:?}: {:?}; with the old token and source: {:?}", a.as_ref().err(), b.as_ref().err());
                cov.hit(&format!("{}-{}", format!("{o:?}").split([' ', '(']).next().unwrap(), if a.is_ok() { "ok" } else { "refused" }));
                if a.is_err() {
                    return Ok(None);
                }
                for who in [ALICE, BOB] {
                    let (x, z) = (n.w.bal(who, ASTRO), n.twin.bal(who, ASTRO));
                    vensure!(x == z, "renamed", "after {o:?} {who} has {x} ASTRO; with the old token and source {z}");
                }
                let from = |w: &World| w.bal(&y.vest, ASTRO) as i128 + w.bal(&self.vest2, ASTRO) as i128;
                vensure!(from(&n.w) == from(&n.twin), "renamed", "{o:?} took {} from the sources; with the old ones {}", from(&s.w) - from(&n.w), from(&s.twin) - from(&n.twin));
                let idle = if s.at.1 { &y.vest } else { &self.vest2 };
                vensure!(n.w.bal(idle, ASTRO) == s.w.bal(idle, ASTRO), "source", "{o:?} was paid from a source that is not the protocol's");
                match o {
                    Op::Deposit { who, p, v, .. } => *n.st.entry((*p, who.clone())).or_default() += v,
                    Op::Withdraw { who, p, .. } => {
                        n.st.remove(&(*p, who.clone()));
                    }
                    _ => {}
                }
            }
            TOp::Token(x) => {
                let t = native(if *x { "uother" } else { ASTRO });
                let r = n.w.exec_json(OWNER, &y.inc, json!({"update_config": {"astro_token": t.info()}}), &[]);
                vensure!(r.is_ok(), "renamed", "the protocol's token cannot be changed: {:?}", r.err());
                n.at.0 = *x;
                cov.hit("token-changed");
            }
            TOp::Vesting(x) => {
                let t = if *x { &self.vest2 } else { &y.vest };
                let r = n.w.exec_json(OWNER, &y.inc, json!({"update_config": {"vesting_contract": t}}), &[]);
                vensure!(r.is_ok(), "renamed", "the source of the protocol's reward cannot be changed: {:?}", r.err());
                n.at.1 = *x;
                cov.hit("source-changed");
            }
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &TS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        s.twin.fp(&mut h, true);
        h.done()
    }
    fn check(&self, s: &TS, cov: &mut Cov) -> Result<(), Viol> {
        let y = &self.sys;
        for p in 0..3 {
            for who in [ALICE, BOB] {
                let sum = |w: &World| pending(w, y, p, who).map(|m| m.values().sum::<u128>()).ok();
                let (a, b) = (sum(&s.w), sum(&s.twin));
                vensure!(a == b, "renamed", "{who} is promised {a:?} in pool {p}; with the old token and source {b:?}");
                cov.hit("pending-agrees");
            }
        }
        Ok(())
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "D01",
            scenarios: |t| {
                let stake = |_: &M, s: &S| {
                    let mut v = vec![dep(ALICE, 0, 1000), dep(BOB, 1, 501), Op::Deposit { who: BOB.into(), p: 0, v: 777, to: Some(ALICE.into()) }, Op::Deposit { who: ALICE.into(), p: 1, v: 300, to: Some(BOB.into()) }, Op::Deposit { who: ALICE.into(), p: 1, v: 301, to: Some(HOLDER.into()) }];
                    v.extend(leave(s, &[1, 3, MOST, 0]));
                    v.extend([Op::Withdraw { who: HOLDER.into(), p: 0, v: 1 }, Op::Withdraw { who: ALICE.into(), p: 1, v: 0 }]);
                    v.extend(claims(s));
                    v.extend([Op::Claim { who: ALICE.into(), ps: vec![0, 0] }, Op::Donate { p: 0 }, Op::Donate { p: 1 }, Op::Wait(100_000)]);
                    v
                };
                let life = |_: &M, s: &S| {
                    let mut v = vec![dep(ALICE, 0, 1000), dep(BOB, 1, 501)];
                    v.extend(leave(s, &[1]));
                    // rewards in the very tokens that are staked
                    v.extend([inc(BOB, 0, 3, 2_000_001, 1), inc(BOB, 0, 4, 3_000_000, 2), inc(SEED, 1, 3, 2_000_000, 1), Op::Remove { p: 0, r: 3, bypass: false }, Op::Remove { p: 1, r: 3, bypass: false }, Op::Orphans { limit: None }]);
                    v.extend([Op::Setup(vec![(0, 3), (1, 1)]), Op::Rate(1009), Op::Dereg(0), Op::Block(vec![0, 1]), Op::Wait(100_000), Op::Boundary(WEEK as i64)]);
                    v
                };
                let rich = [dep(ALICE, 0, 1000), dep(BOB, 0, 333), dep(BOB, 1, 501), inc(BOB, 0, 3, 2_000_001, 1), inc(BOB, 0, 4, 3_000_000, 2), inc(SEED, 1, 3, 2_000_000, 1), Op::Setup(vec![(0, 3), (1, 1)]), Op::Rate(1009), Op::Wait(100_000)];
                vec![
                    bounded(model("D01:stakes", false, T0, &[], true, stake), if t { 5 } else { 4 }),
                    bounded(model("D01:life", false, T0, &[], true, life), if t { 5 } else { 3 }),
                    bounded(model("D01:rich", false, T0, &rich, true, life), if t { 4 } else { 3 }),
                ]
            },
            assumptions: &["LP and reward tokens are cosmos coins and cw20-base tokens", "the vesting contract holds the protocol reward"],
        },
        Prop {
            id: "D02",
            scenarios: |t| {
                let flow = |_: &M, s: &S| {
                    let mut v = vec![dep(ALICE, 0, 1000), dep(BOB, 0, 3001), Op::Deposit { who: BOB.into(), p: 0, v: 7, to: Some(ALICE.into()) }];
                    v.extend(leave(s, &[1, MOST]));
                    v.extend(claims(s));
                    v.extend([Op::Wait(1), Op::Wait(77_777), Op::Boundary(0), Op::Boundary(WEEK as i64 + 5)]);
                    v
                };
                let pre = [Op::Setup(vec![(0, 3), (2, 1)]), Op::Rate(1_000_003), inc(SEED, 0, 0, 777_777_777, 1), inc(SEED, 0, 1, 10_000_000, 3), inc(SEED, 0, 2, 5_000_001, 2)];
                let mut on = pre.to_vec();
                on.extend([dep(ALICE, 0, 10), dep(BOB, 0, 1), Op::Wait(3)]);
                // rewards come, end, come back and are taken away
                let churn = |_: &M, s: &S| {
                    let mut v = vec![dep(ALICE, 0, 1000)];
                    v.extend(leave(s, &[1]));
                    v.extend(claims(s));
                    v.extend([inc(SEED, 0, 0, 777_777_777, 1), inc(SEED, 0, 1, 5_000_000, 1), inc(SEED, 0, 2, 5_000_001, 1), Op::Remove { p: 0, r: 0, bypass: false }, Op::Remove { p: 0, r: 1, bypass: false }, Op::Wait(77_777), Op::Boundary(WEEK as i64), Op::Rate(0), Op::Rate(7)]);
                    v
                };
                // two pools with the same rewards
                let two = |_: &M, s: &S| {
                    let mut v = vec![dep(ALICE, 0, 50), dep(ALICE, 1, 70), dep(BOB, 1, 1001)];
                    v.extend(leave(s, &[1]));
                    v.extend(claims(s));
                    // the same pool named again, next to itself and with another in between
                    v.extend([Op::Claim { who: BOB.into(), ps: vec![0, 1, 0] }, Op::Claim { who: BOB.into(), ps: vec![1, 1] }]);
                    v.extend([inc(SEED, 1, 0, 9_999_999, 1), Op::Setup(vec![(1, 5)]), Op::Setup(vec![(0, 2), (1, 7)]), Op::Wait(77_777), Op::Boundary(WEEK as i64)]);
                    v
                };
                // one reward is taken away and comes back, any number of times, with or without
                // the staker acting in between and in the same block
                let again = |_: &M, _: &S| {
                    vec![
                        Op::Claim { who: ALICE.into(), ps: vec![0] },
                        Op::Withdraw { who: ALICE.into(), p: 0, v: 1 },
                        Op::Remove { p: 0, r: 0, bypass: false },
                        inc(SEED, 0, 0, 900_000_007, 1),
                        Op::Wait(77_777),
                        Op::Boundary(WEEK as i64),
                    ]
                };
                let again_pre = [dep(ALICE, 0, 10), dep(BOB, 0, 1), inc(SEED, 0, 0, 700_000_001, 1), Op::Wait(1000)];
                let churn_pre = [dep(ALICE, 0, 10), dep(BOB, 0, 1), inc(SEED, 0, 0, 700_000_001, 1), inc(SEED, 0, 1, 5_000_000, 1), Op::Setup(vec![(0, 1)]), Op::Wait(1000)];
                vec![
                    bounded(model("D02:flow", false, T0, &pre, false, flow), if t { 6 } else { 5 }),
                    bounded(model("D02:running", false, T0, &on, false, flow), if t { 6 } else { 4 }),
                    bounded(model("D02:again", false, T0, &again_pre, t, again), if t { 8 } else { 6 }),
                    bounded(model("D02:churn", false, T0, &churn_pre, t, churn), if t { 6 } else { 4 }),
                    bounded(model("D02:two", false, T0, &on, false, two), if t { 5 } else { 4 }),
                ]
            },
            assumptions: &["as D01"],
        },
        Prop {
            id: "D03",
            scenarios: |t| {
                let setup = |_: &M, s: &S| {
                    let mut v = vec![Op::Setup(vec![(0, 3), (1, 1)]), Op::Setup(vec![(2, 1)]), Op::Setup(vec![(2, 5), (0, 1), (1, 2)]), Op::Setup(vec![]), Op::Setup(vec![(0, 0)]), Op::Setup(vec![(1, 1), (1, 1)])];
                    v.extend([0, 7, 1_000_003].map(Op::Rate));
                    v.extend([Op::Dereg(0), Op::Dereg(2), Op::Block(vec![0]), Op::Block(vec![2, 0]), Op::Block(vec![1, 2]), Op::Block(vec![3]), Op::Block(vec![5]), Op::Unblock(vec![0]), Op::Type { stable: true, off: true }, Op::Type { stable: false, off: true }, Op::Deactivate]);
                    if s.g.off.contains(&true) {
                        v.push(Op::Type { stable: true, off: false });
                    }
                    v.push(Op::Wait(1009));
                    v
                };
                let stake = |_: &M, s: &S| {
                    let mut v = vec![Op::Setup(vec![(0, 3), (1, 1)]), Op::Setup(vec![(2, 5), (0, 1), (1, 2)]), Op::Rate(0), Op::Rate(1_000_003), Op::Dereg(0), Op::Block(vec![0, 1]), Op::Type { stable: true, off: true }, Op::Deactivate, dep(ALICE, 0, 12), dep(BOB, 2, 5), Op::Wait(1009)];
                    v.extend(leave(s, &[1, MOST]));
                    v
                };
                let pre = [Op::Rate(1_000_003), Op::Setup(vec![(2, 5), (0, 1), (1, 2)]), dep(ALICE, 0, 7), dep(BOB, 0, 3), dep(ALICE, 1, 11), dep(BOB, 2, 13), Op::Wait(101)];
                vec![
                    bounded(model("D03:set-up", false, T0, &[], false, setup), if t { 5 } else { 4 }),
                    bounded(model("D03:staked", false, T0, &pre, t, setup), if t { 4 } else { 3 }),
                    bounded(model("D03:stakes", false, T0, &pre, false, stake), if t { 6 } else { 5 }),
                    bounded(Renamed::new(), if t { 6 } else { 5 }),
                ]
            },
            assumptions: &["as D01"],
        },
        Prop {
            id: "D04",
            scenarios: |t| {
                let sched = |_: &M, s: &S| {
                    let mut v = vec![];
                    for (v0, k) in [(1_300_007u128, 1), (9_000_001, 2), (70_000_013, 5)] {
                        v.push(inc(SEED, 0, 0, v0, k));
                    }
                    v.extend([inc(BOB, 2, 0, 2_000_003, 1), Op::Remove { p: 0, r: 0, bypass: false }, Op::Orphans { limit: Some(1) }, dep(ALICE, 0, 6)]);
                    v.extend(leave(s, &[1]));
                    v.extend([Op::Wait(100_003), Op::Boundary(0), Op::Boundary(2 * WEEK as i64 + 11)]);
                    v
                };
                let several = |_: &M, s: &S| {
                    let mut v = vec![inc(SEED, 0, 0, 1_300_007, 1), inc(SEED, 0, 1, 1_400_000, 1), Op::Many(vec![(0, 0, 2_000_000, 1), (0, 1, 3_000_000, 2)]), Op::Many(vec![(0, 2, 2_000_000, 1), (2, 2, 3_000_000, 2)])];
                    for r in [0, 1, 2] {
                        v.push(Op::Remove { p: 0, r, bypass: false });
                    }
                    v.extend([Op::Orphans { limit: Some(1) }, dep(ALICE, 0, 6)]);
                    v.extend(leave(s, &[1]));
                    v.extend(claims(s));
                    v.extend([Op::Wait(100_003), Op::Boundary(WEEK as i64)]);
                    v
                };
                // listing fee and limits of a schedule
                let fee = |_: &M, _: &S| {
                    let mut v = vec![];
                    for pay in [true, false] {
                        for (r, v0, k) in [(0, 1_300_000u128, 1u64), (1, 1_300_000, 1), (2, 1_300_000, 1), (0, 1_209_599, 1), (0, 604_800, 1), (0, 100_000_000, 25), (0, 100_000_000, 26), (0, 100_000_000, 0), (0, 909_583, 1), (0, 909_582, 1)] {
                            v.push(Op::Incent { who: BOB.into(), p: 0, r, v: v0, n: k, pay });
                        }
                    }
                    v.extend([Op::Boundary(0), Op::Boundary(-1), Op::Boundary(1), Op::Boundary(WEEK as i64 + 3), Op::Remove { p: 0, r: 0, bypass: false }, Op::Dereg(0)]);
                    v
                };
                let live = [inc(SEED, 0, 0, 9_000_001, 3), dep(BOB, 0, 5), Op::Wait(5), inc(SEED, 0, 0, 70_000_013, 8), inc(SEED, 0, 1, 70_000_013, 2), Op::Wait(1_000_000)];
                // emergency removals, which give up what is upcoming, must not harm anybody else
                let bypass = |_: &M, s: &S| {
                    let mut v = vec![];
                    for (v0, k) in [(1_300_007u128, 1), (9_000_001, 2), (70_000_013, 5)] {
                        v.push(inc(SEED, 0, 3, v0, k));
                    }
                    v.push(Op::Remove { p: 0, r: 3, bypass: true });
                    v.extend(leave(s, &[1]));
                    v.extend([Op::Boundary(0), Op::Boundary(5 * WEEK as i64 + 11)]);
                    v
                };
                let far = [dep(BOB, 0, 5_000_000), inc(SEED, 0, 3, 9_000_001, 5), inc(SEED, 0, 3, 70_000_013, 8)];
                vec![
                    bounded(model("D04:emergency", false, T0, &far, true, bypass), if t { 6 } else { 5 }),
                    bounded(model("D04:schedules", false, T0, &[], false, sched), if t { 6 } else { 4 }),
                    bounded(model("D04:running", false, T0, &live, t, sched), if t { 5 } else { 4 }),
                    bounded(model("D04:several", false, T0, &live, false, several), if t { 5 } else { 4 }),
                    bounded(model("D04:fee", true, T0, &[], false, fee), if t { 4 } else { 3 }),
                ]
            },
            assumptions: &["as D01"],
        },
        Prop {
            id: "D05",
            scenarios: |t| {
                let block = |_: &M, s: &S| {
                    let mut v = vec![Op::Block(vec![0]), Op::Block(vec![1, 3]), Op::Block(vec![2]), Op::Block(vec![2, 2]), Op::Block(vec![4, 6]), Op::Block(vec![5]), Op::Unblock(vec![0]), Op::Unblock(vec![1, 3]), Op::Unblock(vec![4])];
                    v.extend([Op::Setup(vec![(0, 3), (1, 1)]), Op::Setup(vec![(2, 1)]), Op::Setup(vec![(0, 2)]), inc(SEED, 0, 0, 2_000_000, 1), inc(SEED, 0, 1, 2_000_000, 1), inc(SEED, 2, 2, 2_000_000, 1), Op::Many(vec![(2, 2, 2_000_000, 1), (2, 0, 2_000_000, 1)]), dep(BOB, 2, 5)]);
                    v.extend(leave(s, &[1]));
                    v.extend([Op::Type { stable: true, off: true }, Op::Type { stable: true, off: false }, Op::Deactivate, Op::Wait(101)]);
                    v
                };
                let caps = |m: &M, s: &S| {
                    let mut v = vec![];
                    let live = |r: usize| s.g.scheds.contains_key(&(0, r));
                    // the next of the interchangeable rewards
                    if let Some(r) = (5..m.sys.rew.len()).find(|r| !live(*r)) {
                        v.push(inc(SEED, 0, r, 2_000_000, 1));
                        v.push(inc(SEED, 0, r, 4_000_000, 2));
                    }
                    v.extend([inc(SEED, 0, 1, 3_000_000, 1), inc(SEED, 0, 2, 3_000_000, 1), Op::Many(vec![(0, 0, 2_000_000, 1), (0, 3, 2_000_000, 1)]), inc(SEED, 2, 0, 2_000_000, 1)]);
                    for r in [1, 2, 5] {
                        v.push(Op::Remove { p: 0, r, bypass: false });
                    }
                    v.extend([dep(ALICE, 0, 3), Op::Boundary(WEEK as i64)]);
                    v
                };
                // next to the protocol's own reward, which does not count
                let mut with_own = vec![Op::Setup(vec![(0, 3)]), Op::Rate(1009)];
                with_own.extend((5..8).map(|r| inc(SEED, 0, r, 2_000_000 + r as u128, 1)));
                let four: Vec<Op> = (5..9).map(|r| inc(SEED, 0, r, 2_000_000 + r as u128, 1)).collect();
                let mut paid = vec![];
                for r in 5..9 {
                    paid.push(Op::Incent { who: SEED.into(), p: 0, r, v: 2_000_000, n: 1, pay: true });
                }
                let fees = |_: &M, _: &S| {
                    let mut v = vec![];
                    for pay in [true, false] {
                        for r in [1, 2, 5, 10] {
                            v.push(Op::Incent { who: BOB.into(), p: 0, r, v: 2_000_000, n: 2, pay });
                        }
                    }
                    v.extend([Op::Remove { p: 0, r: 5, bypass: false }, Op::Boundary(WEEK as i64)]);
                    v
                };
                let mut lists = vec![];
                for what in 0..3 {
                    for count in if t { vec![0, 1, 2, 49, 50, 51, 103, 257] } else { vec![0, 1, 51, 103] } {
                        for limit in [None, Some(1), Some(2), Some(49), Some(50), Some(51), Some(255)] {
                            if what != 1 || count < 60 || t {
                                lists.push(List { what, count, limit });
                            }
                        }
                    }
                }
                let mut fakes = vec![];
                for lp in 0..14 {
                    for how in 0..5 {
                        fakes.push(Fake { lp, how });
                    }
                }
                vec![
                    bounded(model("D05:blocked", false, T0, &[], false, block), if t { 5 } else { 4 }),
                    bounded(model("D05:caps", false, T0, &four, false, caps), if t { 6 } else { 4 }),
                    bounded(model("D05:caps-and-own", false, T0, &with_own, false, caps), if t { 6 } else { 4 }),
                    bounded(model("D05:caps-from-none", false, T0, &[], false, caps), if t { 7 } else { 5 }),
                    bounded(model("D05:caps-and-fees", true, T0, &paid, false, fees), if t { 6 } else { 4 }),
                    grid("D05:lists", lists, check_list),
                    grid("D05:eligible", fakes, check_fake),
                ]
            },
            assumptions: &["as D01", "a limit of zero entries per page is not asked for"],
        },
    ]
}
