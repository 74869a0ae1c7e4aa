//! M01: failures inside a message and refused upgrades leave everything as it was.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use cosmwasm_std::Coin;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::Arc;

fn full(w: &World) -> u128 {
    let mut h = H::new();
    w.fp(&mut h, true);
    h.done()
}
// ------------------------------------------------------------ every flow, failed at every point
#[derive(Clone)]
struct Flow {
    name: String,
    who: String,
    to: String,
    msg: Value,
    funds: Vec<Coin>,
}
fn flows(e: &Eco) -> Vec<Flow> {
    let mut v = vec![];
    let mut add = |n: String, who: &str, to: &str, msg: Value, mut funds: Vec<Coin>| {
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        v.push(Flow { name: n, who: who.into(), to: to.into(), msg, funds })
    };
    let at = &e.at;
    for (n, p) in &e.pools {
        for (auto, recv) in [(false, Value::Null), (true, Value::Null), (true, json!(BOB))] {
            if auto && p.kind == Kind::Trans {
                continue;
            }
            let slip = if p.kind == Kind::Trans { Value::Null } else { json!("0.5") };
            add(
                format!("{n}:provide{}", if auto { "-stake" } else { "" }),
                ALICE,
                &p.addr,
                json!({"provide_liquidity": {"assets": p.assets(&[10_000, 10_000]), "slippage_tolerance": slip, "auto_stake": auto, "receiver": recv}}),
                p.funds(&[10_000, 10_000]),
            );
        }
        for i in 0..2 {
            match &p.toks[i] {
                Tok::N(d) => add(format!("{n}:swap{i}"), ALICE, &p.addr, json!({"swap": {"offer_asset": p.toks[i].asset(10_000), "max_spread": "0.5"}}), vec![coin(10_000, d)]),
                Tok::T(t) => add(format!("{n}:swap{i}"), ALICE, t, json!({"send": {"contract": p.addr, "amount": "10000", "msg": b64(&json!({"swap": {"max_spread": "0.5"}}))}}), vec![]),
            }
        }
        add(format!("{n}:withdraw"), ALICE, &p.addr, json!({"withdraw_liquidity": {"assets": []}}), vec![coin(10_000, &p.lp)]);
    }
    let op = |a: &Tok, b: &Tok| json!({"astro_swap": {"offer_asset_info": a.info(), "ask_asset_info": b.info()}});
    let (a, b, c, s, cw) = (native("uaaa"), native("ubbb"), native("uccc"), native(ASTRO), Tok::T(at["cw20"].clone()));
    for path in [vec![&a, &b], vec![&c, &a, &b], vec![&a, &s, &b, &cw], vec![&cw, &b, &a, &c]] {
        let ops: Vec<Value> = path.windows(2).map(|x| op(x[0], x[1])).collect();
        let m = json!({"execute_swap_operations": {"operations": ops, "minimum_receive": "1", "to": BOB, "max_spread": "0.5"}});
        match path[0] {
            Tok::N(d) => add(format!("route{}", ops.len()), ALICE, &at["router"], m, vec![coin(10_000, d)]),
            Tok::T(t) => add(format!("route{}-cw20", ops.len()), ALICE, t, json!({"send": {"contract": at["router"], "amount": "10000", "msg": b64(&m)}}), vec![]),
        }
    }
    let inc = &at["incentives"];
    let lp = |n: &str| e.pools[n].lp.clone();
    for n in ["xyk", "stable", "pcl", "tax"] {
        add(format!("stake:{n}"), ALICE, inc, json!({"deposit": {"recipient": null}}), vec![coin(1000, &lp(n))]);
        add(format!("stake-for:{n}"), ALICE, inc, json!({"deposit": {"recipient": BOB}}), vec![coin(1000, &lp(n))]);
        if n != "tax" {
            add(format!("unstake:{n}"), ALICE, inc, json!({"withdraw": {"lp_token": lp(n), "amount": "1000"}}), vec![]);
            add(format!("unstake-all:{n}"), ALICE, inc, json!({"withdraw": {"lp_token": lp(n), "amount": "1000000"}}), vec![]);
            add(format!("claim:{n}"), ALICE, inc, json!({"claim_rewards": {"lp_tokens": [lp(n)]}}), vec![]);
        }
    }
    add("claim:both".into(), ALICE, inc, json!({"claim_rewards": {"lp_tokens": [lp("xyk"), lp("stable")]}}), vec![]);
    add("incentivize".into(), BOB, inc, json!({"incentivize": {"lp_token": lp("tax"), "schedule": {"reward": native("uusd").asset(10_000_000), "duration_periods": 1}}}), vec![coin(10_000_000, "uusd")]);
    add("remove-reward".into(), OWNER, inc, json!({"remove_reward_from_pool": {"lp_token": lp("xyk"), "reward": "uusd", "bypass_upcoming_schedules": false, "receiver": CAROL}}), vec![]);
    add("orphans".into(), OWNER, inc, json!({"claim_orphaned_rewards": {"limit": null, "receiver": CAROL}}), vec![]);
    add("setup-pools".into(), OWNER, inc, json!({"setup_pools": {"pools": [[lp("tax"), "3"]]}}), vec![]);
    add("vested".into(), ALICE, &at["vesting"], json!({"claim": {}}), vec![]);
    add("vested-cw20".into(), ALICE, &at["vesting-cw20"], json!({"claim": {"recipient": BOB, "amount": "500"}}), vec![]);
    add("vesting-withdraw".into(), OWNER, &at["vesting"], json!({"withdraw_from_active_schedule": {"account": ALICE, "recipient": null, "withdraw_amount": "100"}}), vec![]);
    let x = e.w.q(&at["staking"], json!({"config": {}})).unwrap()["xastro_denom"].as_str().unwrap().to_string();
    add("enter".into(), ALICE, &at["staking"], json!({"enter": {"receiver": null}}), vec![coin(5000, ASTRO)]);
    add("enter-hook".into(), ALICE, &at["staking"], json!({"enter_with_hook": {"contract_address": at["governance"], "msg": b64(&json!({}))}}), vec![coin(5000, ASTRO)]);
    add("leave".into(), ALICE, &at["staking"], json!({"leave": {"receiver": null}}), vec![coin(5000, &x)]);
    add("xastro-enter".into(), ALICE, &at["pair_xastro"], json!({"swap": {"offer_asset": native(ASTRO).asset(5000), "max_spread": "0.5"}}), vec![coin(5000, ASTRO)]);
    add("xastro-leave".into(), ALICE, &at["pair_xastro"], json!({"swap": {"offer_asset": native(&x).asset(5000), "max_spread": "0.5"}}), vec![coin(5000, &x)]);
    for t in [vec!["uaaa"], vec!["uccc", "uaaa"], vec!["uccc", ASTRO]] {
        let l: Vec<Value> = t.iter().map(|d| json!({"info": native(d).info(), "limit": null})).collect();
        add(format!("collect:{}", t.len()), ALICE, &at["maker"], json!({"collect": {"assets": l}}), vec![]);
    }
    add("seize".into(), ALICE, &at["maker"], json!({"seize": {"assets": [{"info": native("uusd").info(), "limit": null}]}}), vec![]);
    add("convert".into(), ALICE, &at["converter"], json!({"convert": {"receiver": null}}), vec![coin(100, OLDASTRO)]);
    add("convert-pair".into(), ALICE, &at["pair_converter"], json!({"swap": {"offer_asset": native(OLDASTRO).asset(100), "max_spread": "0.5"}}), vec![coin(100, OLDASTRO)]);
    add("oracle".into(), ALICE, &at["oracle"], json!({"update": {}}), vec![]);
    add("register".into(), ALICE, &at["registry"], json!({"register": {"native_coins": [[lp("xyk"), 6]]}}), vec![coin(1, &lp("xyk"))]);
    add("deregister".into(), OWNER, &at["factory"], json!({"deregister": {"asset_infos": [a.info(), b.info()]}}), vec![]);
    for k in KINDS {
        let mut cfg = Cfg::new(k);
        cfg.track = true;
        let toks = [native("uusd"), native("uccc")];
        let mut ip = init_params(&cfg, &toks);
        if k == Kind::Tax {
            ip["tax_configs"] = json!({});
        }
        add(format!("create:{k:?}"), ALICE, &at["factory"], json!({"create_pair": {"pair_type": k.pair_type(), "asset_infos": toks.map(|t| t.info()), "init_params": if k == Kind::Trans { Value::Null } else { json!(b64(&ip)) }}}), vec![]);
    }
    add("grant".into(), OWNER, &at["fee_granter"], json!({"grant": {"grantee_contract": BOB, "amount": "50"}}), vec![coin(50, "untrn")]);
    add("revoke".into(), OWNER, &at["fee_granter"], json!({"revoke": {"grantee_contract": "wasm1granted"}}), vec![]);
    add("transfer-coins".into(), OWNER, &at["fee_granter"], json!({"transfer_coins": {"amount": "5", "receiver": null}}), vec![]);
    add("cw1".into(), WLADMIN, &at["whitelist"], json!({"execute": {"msgs": [{"bank": {"send": {"to_address": BOB, "amount": [{"denom": "uaaa", "amount": "5"}]}}}, {"bank": {"send": {"to_address": CAROL, "amount": [{"denom": "uaaa", "amount": "7"}]}}}]}}), vec![]);
    add("token-send".into(), ALICE, &at["xastro_token"], json!({"send": {"contract": at["governance"], "amount": "5", "msg": b64(&json!({}))}}), vec![]);
    v
}
fn run(w: &World, f: &Flow, fail: &[usize]) -> (Result<(), String>, World, Ctx) {
    let mut w = w.clone();
    let mut c = Ctx { fail_at: fail.to_vec(), ..Default::default() };
    let r = w.exec_raw(&mut c, &f.who, &f.to, &serde_json::to_vec(&f.msg).unwrap(), &f.funds);
    (r, w, c)
}
fn faults(e: &Eco, f: &Flow, pairs: bool, cov: &mut Cov) -> Result<(), Viol> {
    let (r, wn, c) = run(&e.w, f, &[]);
    let n = c.dispatched;
    cov.hit(&format!("{}-{}", f.name, if r.is_ok() { "works" } else { "refused" }));
    vensure!(r.is_ok(), "flow", "{} of {} is refused: {:?}", f.name, f.who, r.err());
    let before = full(&e.w);
    let b0 = balances(&e.w);
    let normal = diff(&b0, &balances(&wn));
    let inc = &e.at["incentives"];
    let outside: BTreeSet<String> = ["uusd".into(), "uusdt".into(), e.at["cw20"].clone()].into();
    let staking = f.to == *inc || c.tx.calls.iter().any(|x| x.1 == *inc);
    let mut sets: Vec<Vec<usize>> = (0..n).map(|k| vec![k]).collect();
    let mut i = 0;
    while i < sets.len() {
        let s = sets[i].clone();
        i += 1;
        // rewards of one pool are paid in no particular order, in one or two messages per token
        let (mut r, mut w, mut c) = run(&e.w, f, &s);
        for _ in 0..if s.len() == 1 { 30 } else { 0 } {
            if c.faults_hit > 0 {
                break;
            }
            (r, w, c) = run(&e.w, f, &s);
        }
        if c.faults_hit < s.len() {
            continue;
        }
        cov.add("fault-injections", 1);
        if r.is_err() {
            cov.hit("undone");
            vensure!(full(&w) == before, "trace", "{} failing at calls {s:?} left a trace", f.name);
            continue;
        }
        // only the hand-out of somebody's rewards may fail on its own, and it stays in the contract
        cov.hit("swallowed");
        let got = diff(&b0, &balances(&w));
        let keys: BTreeSet<_> = normal.keys().chain(got.keys()).cloned().collect();
        for k in keys {
            let d = got.get(&k).unwrap_or(&0) - normal.get(&k).unwrap_or(&0);
            vensure!(d == 0 || staking && outside.contains(&k.1), "swallowed", "{} with call {s:?} failing still went through, with {} of {} at {} differing by {d}", f.name, k.1, k.1, k.0);
        }
        for t in &outside {
            let sum: i128 = got.iter().filter(|x| x.0 .1 == *t).map(|x| x.1).sum();
            let sum0: i128 = normal.iter().filter(|x| x.0 .1 == *t).map(|x| x.1).sum();
            vensure!(sum == sum0, "swallowed", "{t} vanished");
            let kept = got.get(&(inc.clone(), t.clone())).unwrap_or(&0) - normal.get(&(inc.clone(), t.clone())).unwrap_or(&0);
            vensure!(kept >= 0, "swallowed", "{t} went astray");
        }
        if pairs && s.len() < 3 {
            sets.extend((s.last().unwrap() + 1..n).map(|k| [s.clone(), vec![k]].concat()));
        }
    }
    Ok(())
}
// ------------------------------------------------------------ rewards that cannot be handed out
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Stake { u: usize, p: usize, v: u64 },
    Unstake { u: usize, p: usize, v: u64 },
    Claim { u: usize, l: Vec<usize> },
    Break { t: usize, how: usize },
    Fix { t: usize },
    Wait { s: u64 },
    Dereg(usize),
    Remove { p: usize, t: usize, bypass: bool },
    Orphans,
    Gas(u64),
}
const US: [&str; 2] = [ALICE, BOB];
#[derive(Clone)]
struct BS {
    w: World,
    stake: [[u64; 2]; 2],
    bad: [bool; 3],
    hog: [bool; 3],
    gone: [bool; 2],
    gas: bool,
}
struct BM {
    w0: World,
    inc: String,
    factory: String,
    pools: Vec<Pool>,
    rew: Vec<Tok>,
    other: String,
}
impl BM {
    fn new() -> BM {
        let mut w = World::new();
        w.time = ECO_TIME;
        for u in [SEED, ALICE, BOB, OWNER] {
            for d in ["uaaa", "ubbb", "uccc", ASTRO] {
                w.fund(u, d, 1 << 90);
            }
        }
        let reg = new_registry(&mut w, &["uaaa", "ubbb", "uccc", ASTRO].map(|d| (d.to_string(), 6u8)));
        let f = new_factory(&mut w, &reg, vec![pair_config(Kind::Xyk, 30, 0)], None, None);
        let (inc, _) = incentives_with_vesting(&mut w, &f, 1 << 80);
        let mut pools = vec![];
        for (a, b) in [("uaaa", "ubbb"), ("uaaa", "uccc")] {
            let mut cfg = Cfg::new(Kind::Xyk);
            cfg.seed = vec![1_000_000_000; 2];
            let mut p = create_pool(&mut w, &cfg, &f, Some(inc.clone()), &[native(a), native(b)]);
            p.incentives = Some(inc.clone());
            for u in US {
                p.provide(&mut w, u, &[10_000_000; 2], json!({})).unwrap();
            }
            pools.push(p);
        }
        w.exec_json(OWNER, &inc, json!({"setup_pools": {"pools": [[pools[0].lp, "1"], [pools[1].lp, "1"]]}}), &[]).unwrap();
        w.exec_json(OWNER, &inc, json!({"set_tokens_per_second": {"amount": "1000"}}), &[]).unwrap();
        let b = w
            .init(OWNER, BROKEN_CW20, &json!({"name": "Reward", "symbol": "TOKEN", "decimals": 6, "initial_balances": [{"address": SEED, "amount": "1000000000000"}]}), &[])
            .unwrap();
        let h = new_cw20(&mut w, "Reward", 6, &[(SEED, 1 << 80)]);
        let t = w.tf_new(SEED, "rew", None);
        w.tf_mint(SEED, &t, 1 << 80, SEED).unwrap();
        // a hook that works, and one that refuses every transfer
        let mk = |w: &mut World, d: &str| w.init(OWNER, TRACKER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": d, "track_over_seconds": true}), &[]).unwrap();
        let other = mk(&mut w, "factory/wasm1seed/else");
        let rew = vec![Tok::T(b), Tok::N(t), Tok::T(h)];
        for (i, r) in rew.iter().enumerate() {
            for (j, p) in pools.iter().enumerate() {
                if i == 2 && j == 1 {
                    continue;
                }
                if let Tok::T(t) = r {
                    w.exec_json(SEED, t, json!({"increase_allowance": {"spender": inc, "amount": "1000000000"}}), &[]).unwrap();
                }
                let f = if r.native() { vec![coin(100_000_000, r.id())] } else { vec![] };
                w.exec_json(SEED, &inc, json!({"incentivize": {"lp_token": p.lp, "schedule": {"reward": r.asset(100_000_000), "duration_periods": 1}}}), &f).unwrap();
            }
        }
        BM { w0: w, inc, factory: f, pools, rew, other }
    }
}
impl BM {
    /// makes a reward token work (again)
    fn mend(&self, w: &mut World, t: usize) {
        match &self.rew[t] {
            Tok::N(d) => Arc::make_mut(&mut w.tf).get_mut(d).unwrap().hook = None,
            Tok::T(a) if t == 0 => {
                w.unpoke(a, b"hog");
                w.unpoke(a, b"broken");
            }
            Tok::T(a) => w.contracts.get_mut(a.as_str()).unwrap().code = CW20,
        }
    }
}
impl Model for BM {
    type S = BS;
    type Op = Op;
    fn name(&self) -> String {
        "M01:rewards".into()
    }
    fn init(&self) -> BS {
        BS { w: self.w0.clone(), stake: [[0; 2]; 2], bad: [false; 3], hog: [false; 3], gone: [false; 2], gas: false }
    }
    fn ops(&self, s: &BS, _: usize) -> Vec<Op> {
        let mut v = vec![];
        for u in 0..2 {
            for p in 0..2 {
                if s.stake[u][p] < 2000 && !s.gone[p] {
                    v.push(Op::Stake { u, p, v: 1000 });
                }
                if s.stake[u][p] > 0 {
                    v.push(Op::Unstake { u, p, v: s.stake[u][p] });
                    if s.stake[u][p] > 1000 {
                        v.push(Op::Unstake { u, p, v: 1 });
                    }
                    v.push(Op::Claim { u, l: vec![p] });
                }
            }
            if s.stake[u][0] > 0 && s.stake[u][1] > 0 {
                v.push(Op::Claim { u, l: vec![0, 1] });
            }
        }
        for t in 0..3 {
            if s.bad[t] {
                v.push(Op::Fix { t });
            } else {
                v.push(Op::Break { t, how: 0 });
                // a token that uses up all its gas is survivable once the contract limits it
                if t == 0 && s.gas {
                    v.push(Op::Break { t, how: 1 });
                }
            }
            v.push(Op::Remove { p: 0, t, bypass: false });
            v.push(Op::Remove { p: 0, t, bypass: true });
        }
        if !s.gas {
            v.push(Op::Gas(400_000));
        }
        for w in [WEEK / 2, 2 * WEEK] {
            v.push(Op::Wait { s: w });
        }
        for p in 0..2 {
            if !s.gone[p] {
                v.push(Op::Dereg(p));
            }
        }
        v.push(Op::Orphans);
        v
    }
    fn step(&self, s: &BS, op: &Op, cov: &mut Cov) -> Result<Option<BS>, Viol> {
        let mut n = s.clone();
        let w = &mut n.w;
        let inc = &self.inc;
        let b0 = balances(w);
        let lp = |p: usize| self.pools[p].lp.clone();
        // lp tokens that have to move: (user, pool, into the contract)
        let mut lpm: Option<(usize, usize, i128)> = None;
        let must;
        let r = match op {
            Op::Stake { u, p, v } => {
                n.stake[*u][*p] += v;
                lpm = Some((*u, *p, *v as i128));
                must = true;
                w.exec_json(US[*u], inc, json!({"deposit": {"recipient": null}}), &[coin(*v as u128, &lp(*p))])
            }
            Op::Unstake { u, p, v } => {
                n.stake[*u][*p] -= v;
                lpm = Some((*u, *p, -(*v as i128)));
                must = true;
                w.exec_json(US[*u], inc, json!({"withdraw": {"lp_token": lp(*p), "amount": v.to_string()}}), &[])
            }
            Op::Claim { u, l } => {
                must = true;
                w.exec_json(US[*u], inc, json!({"claim_rewards": {"lp_tokens": l.iter().map(|p| lp(*p)).collect::<Vec<_>>()}}), &[])
            }
            Op::Break { t, how } => {
                n.bad[*t] = true;
                match &self.rew[*t] {
                    Tok::N(d) => w.tf_hook(d, &self.other),
                    Tok::T(a) if *t == 0 => {
                        n.hog[*t] = *how == 1;
                        w.poke(a, if *how == 1 { b"hog" } else { b"broken" }, b"1")
                    }
                    // a token whose contract is replaced by one that knows no transfers
                    Tok::T(a) => w.contracts.get_mut(a.as_str()).unwrap().code = FACTORY,
                }
                return Ok(Some(n));
            }
            Op::Fix { t } => {
                n.bad[*t] = false;
                n.hog[*t] = false;
                self.mend(w, *t);
                return Ok(Some(n));
            }
            Op::Wait { s } => {
                w.advance(*s, 10);
                return Ok(Some(n));
            }
            Op::Dereg(p) => {
                n.gone[*p] = true;
                must = true;
                let t = &self.pools[*p].toks;
                w.exec_json(OWNER, &self.factory, json!({"deregister": {"asset_infos": [t[0].info(), t[1].info()]}}), &[])
            }
            Op::Remove { p, t, bypass } => {
                let msg = json!({"remove_reward_from_pool": {"lp_token": lp(*p), "reward": self.rew[*t].id(), "bypass_upcoming_schedules": bypass, "receiver": CAROL}});
                // a reward that could be removed if its token worked can be removed now
                let mut well = w.clone();
                (0..3).for_each(|t| self.mend(&mut well, t));
                must = well.exec_json(OWNER, inc, msg.clone(), &[]).is_ok();
                w.exec_json(OWNER, inc, msg, &[])
            }
            Op::Orphans => {
                must = false;
                w.exec_json(OWNER, inc, json!({"claim_orphaned_rewards": {"limit": null, "receiver": CAROL}}), &[])
            }
            Op::Gas(g) => {
                n.gas = true;
                must = true;
                w.exec_json(OWNER, inc, json!({"update_config": {"token_transfer_gas_limit": g}}), &[])
            }
        };
        let kind = format!("{op:?}").split([' ', '(']).next().unwrap().to_lowercase();
        cov.hit(&format!("{kind}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        if n.hog[0] && !n.gas {
            return Ok(None);
        }
        vensure!(r.is_ok() || !must, "blocked", "{op:?} is refused with broken rewards {:?}: {:?}", s.bad, r.err());
        if r.is_err() {
            return Ok(None);
        }
        let d = diff(&b0, &balances(&n.w));
        if let Some((u, p, v)) = lpm {
            let l = lp(p);
            vensure!(*d.get(&(US[u].to_string(), l.clone())).unwrap_or(&0) == -v && *d.get(&(inc.clone(), l.clone())).unwrap_or(&0) == v, "stake", "{op:?} moved {d:?}");
        }
        for (t, r) in self.rew.iter().enumerate() {
            let moved = d.keys().any(|k| k.1 == r.id());
            if moved {
                cov.hit(&format!("reward{t}-paid"));
            }
            vensure!(!moved || !s.bad[t], "harness", "a broken token moved");
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &BS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{:?}{:?}{:?}{:?}{}", s.stake, s.bad, s.hog, s.gone, s.gas));
        h.done()
    }
    fn check(&self, s: &BS, cov: &mut Cov) -> Result<(), Viol> {
        for u in 0..2 {
            let mut w = s.w.clone();
            for p in 0..2 {
                let v = s.stake[u][p];
                if v > 0 {
                    let l = &self.pools[p].lp;
                    let b = w.bal(US[u], l);
                    let r = w.exec_json(US[u], &self.inc, json!({"withdraw": {"lp_token": l, "amount": v.to_string()}}), &[]);
                    cov.hit(if s.bad.iter().any(|x| *x) { "unstake-with-broken-reward" } else { "unstake" });
                    vensure!(r.is_ok() && w.bal(US[u], l) == b + v as u128, "blocked", "{} cannot get {v} staked tokens of pool {p} back: {:?}", US[u], r.err());
                    let b: Vec<u128> = self.pools[p].toks.iter().map(|t| t.bal(&w, US[u])).collect();
                    let r = self.pools[p].withdraw(&mut w, US[u], v as u128, json!({}));
                    vensure!(r.is_ok() && self.pools[p].toks.iter().zip(b).all(|(t, b)| t.bal(&w, US[u]) > b), "blocked", "liquidity cannot be withdrawn: {:?}", r.err());
                }
            }
        }
        Ok(())
    }
}
// ------------------------------------------------------------ upgrades
const VERSIONS: [&str; 34] = [
    "0.9.0", "1.0.0", "1.0.1", "1.0.2", "1.0.3", "1.1.0", "1.1.1", "1.1.2", "1.2.0", "1.2.1", "1.3.0", "1.3.1", "1.3.2", "1.3.3", "1.4.0", "1.5.0", "1.5.1", "1.6.0", "1.7.0", "1.8.0", "1.8.1", "1.9.0", "2.0.0", "2.1.0",
    "2.1.2", "3.0.0", "4.0.0", "4.0.1", "4.1.0", "4.1.1", "5.0.0", "1.0", "", "x",
];
const NAMES: [&str; 20] = [
    "astroport-factory",
    "astroport-pair",
    "astroport-pair-stable",
    "astroport-pair-concentrated",
    "astroport-pair-xyk-sale-tax",
    "astroport-pair-transmuter",
    "astroport-pair-converter",
    "astroport-pair-xastro",
    "astroport-router",
    "astroport-incentives",
    "astroport-vesting",
    "astroport-staking",
    "astroport-maker",
    "astroport-xastro-token",
    "astroport-oracle",
    "astroport-native-coin-registry",
    "astroport-tokenfactory-tracker",
    "astroport-whitelist",
    "crates.io:cw20-base",
    "",
];
fn set_ver(w: &mut World, a: &str, name: &str, ver: &str) {
    w.poke(a, b"contract_info", json!({"contract": name, "version": ver}).to_string().as_bytes());
}
fn raw(w: &World, a: &str) -> Map {
    (*w.contracts[a].storage).clone()
}
fn item(w: &World, a: &str, k: &str) -> Value {
    w.contracts[a].storage.get(k.as_bytes()).map_or(Value::Null, |v| serde_json::from_slice(v).unwrap())
}
fn put(w: &mut World, a: &str, k: &str, v: &Value) {
    if v.is_null() {
        w.unpoke(a, k.as_bytes());
    } else {
        w.poke(a, k.as_bytes(), &serde_json::to_vec(v).unwrap());
    }
}
fn mapkey(ns: &str, k: &[u8]) -> Vec<u8> {
    let mut v = (ns.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(ns.as_bytes());
    v.extend_from_slice(k);
    v
}
type Post = Box<dyn Fn(&World, &World) -> Result<(), String> + Send + Sync>;
/// an upgrade: where it is accepted, what the old state looks like and what has to come out of it
struct Up {
    name: &'static str,
    c: String,
    code: u64,
    from: &'static str,
    versions: Vec<&'static str>,
    msg: Value,
    old: World,
    /// None: this message is refused even from a documented version
    post: Option<Post>,
    /// the post-upgrade reading of the version on record
    now: Option<(String, String)>,
}
/// storage of a contract without its version record and the listed keys
fn rest(w: &World, a: &str, but: &[&str]) -> Map {
    let mut m = raw(w, a);
    m.remove(b"contract_info".as_slice());
    for k in but {
        m.remove(k.as_bytes());
    }
    // the order of fields in JSON is of no importance
    m.into_iter().map(|(k, v)| (k, serde_json::from_slice::<Value>(&v).map(|x| x.to_string().into_bytes()).unwrap_or(v))).collect()
}
fn show(m: &Map) -> String {
    m.iter().map(|(k, v)| format!("{}={}; ", String::from_utf8_lossy(k), String::from_utf8_lossy(v))).collect()
}
fn changed(a: &Map, b: &Map) -> String {
    let f = |x: &Map, y: &Map| show(&x.iter().filter(|(k, v)| y.get(*k) != Some(v)).map(|(k, v)| (k.clone(), v.clone())).collect());
    format!("{} became {}", f(a, b), f(b, a))
}
fn same(c: &str) -> Post {
    let c = c.to_string();
    Box::new(move |a, b| {
        let (x, y) = (rest(a, &c, &[]), rest(b, &c, &[]));
        if x != y {
            return Err(changed(&x, &y));
        }
        if balances(a) != balances(b) {
            return Err("balances changed".into());
        }
        Ok(())
    })
}
/// the upgraded contract is exactly what `want` describes
fn equals(c: &str, want: World, but: &'static [&'static str]) -> Post {
    let c = c.to_string();
    Box::new(move |a, b| {
        let (x, y) = (rest(&want, &c, but), rest(b, &c, but));
        if x != y {
            return Err(changed(&x, &y));
        }
        if balances(a) != balances(b) {
            return Err("balances changed".into());
        }
        Ok(())
    })
}
fn ups() -> Vec<Up> {
    let mut v: Vec<Up> = vec![];
    let e = eco();
    let at = e.at.clone();
    let ver = |c: &str| {
        let i = item(&e.w, &at[c], "contract_info");
        Some((i["contract"].as_str().unwrap().to_string(), i["version"].as_str().unwrap().to_string()))
    };
    let mut plain = |c: &'static str, code: u64, from: &'static str, versions: Vec<&'static str>, msg: Value| {
        v.push(Up { name: c, c: at[c].clone(), code, from, versions, msg, old: e.w.clone(), post: Some(same(&at[c])), now: ver(c) });
    };
    plain("router", ROUTER, "astroport-router", vec!["1.1.2", "1.2.0", "1.3.0"], json!({}));
    plain("incentives", INCENTIVES, "astroport-incentives", vec!["1.0.0", "1.0.1", "1.1.0", "1.2.0"], json!({}));
    plain("staking", STAKING, "astroport-staking", vec!["2.0.0", "2.1.0"], json!({}));
    plain("xastro_token", XASTRO_TOKEN, "astroport-xastro-token", vec!["1.0.0", "1.0.1", "1.0.2"], json!({}));
    plain("registry", REGISTRY, "astroport-native-coin-registry", vec!["1.0.1"], json!({}));
    plain("pcl", PCL, "astroport-pair-concentrated", vec!["4.0.0", "4.0.1", "4.1.0"], json!({}));
    plain("pcl-free", PCL, "astroport-pair-concentrated", vec!["4.0.0", "4.0.1", "4.1.0"], json!({}));
    // never
    plain("xyk", PAIR, "astroport-pair", vec![], json!({}));
    plain("stable", STABLE, "astroport-pair-stable", vec![], json!({}));
    plain("trans", TRANSMUTER, "astroport-pair-transmuter", vec![], json!({}));
    plain("tax", SALE_TAX, "astroport-pair-xyk-sale-tax", vec![], json!({"tax_configs": {}, "tax_config_admin": TAXADM}));
    // factory
    {
        let f = at["factory"].clone();
        let mut w = e.w.clone();
        let kinds = [(Kind::Xyk, "xyk", 30, 3333, false, false), (Kind::Stable, "stable", 5, 5000, true, false), (Kind::Tax, "custom-astroport-pair-xyk-sale-tax", 20, 0, false, true), (Kind::Pcl, "custom-concentrated", 26, 4000, false, false)];
        for (k, _, fee, maker, dis, gen) in kinds {
            let mut c = pair_config(k, fee, maker);
            c["is_disabled"] = json!(dis);
            c["is_generator_disabled"] = json!(gen);
            w.exec_json(OWNER, &f, json!({"update_pair_config": {"config": c}}), &[]).unwrap();
        }
        let want = w.clone();
        // old: no permissions, concentrated pools had a type of their own
        let mut old = w.clone();
        let (mut hit, mut pcl) = (0, false);
        for (k, x) in raw(&w, &f) {
            let pre = mapkey("pair_configs", b"");
            if !k.starts_with(&pre) {
                continue;
            }
            hit += 1;
            let mut c: Value = serde_json::from_slice(&x).unwrap();
            c.as_object_mut().unwrap().remove("permissioned");
            let mut key = k.clone();
            if c["pair_type"] == json!({"custom": "concentrated"}) {
                c["pair_type"] = json!({"concentrated": {}});
                old.unpoke(&f, &k);
                key = mapkey("pair_configs", b"concentrated");
                pcl = true;
            }
            old.poke(&f, &key, &serde_json::to_vec(&c).unwrap());
        }
        assert!(hit == 5 && pcl);
        let tc = item(&w, &f, "tracker_config");
        assert!(!tc.is_null());
        let mut without = want.clone();
        put(&mut without, &f, "tracker_config", &Value::Null);
        put(&mut old, &f, "tracker_config", &Value::Null);
        let msg = json!({"tracker_config": {"code_id": tc["code_id"], "token_factory_addr": tc["token_factory_addr"]}});
        let mut up = |name, versions: Vec<&'static str>, msg: &Value, old: &World, post| {
            v.push(Up { name, c: f.clone(), code: FACTORY, from: "astroport-factory", versions, msg: msg.clone(), old: old.clone(), post, now: ver("factory") });
        };
        up("factory 1.6-", vec!["1.3.1", "1.5.1", "1.6.0"], &msg, &old, Some(equals(&f, want.clone(), &[])));
        up("factory 1.6-, no tracker", vec!["1.3.1", "1.5.1", "1.6.0"], &json!({}), &old, Some(equals(&f, without.clone(), &[])));
        up("factory 1.7", vec!["1.7.0"], &msg, &without, Some(equals(&f, want.clone(), &[])));
        up("factory 1.7, no tracker", vec!["1.7.0"], &json!({"tracker_config": null}), &without, Some(equals(&f, without.clone(), &[])));
        let bad = json!({"tracker_config": {"code_id": tc["code_id"], "token_factory_addr": "Not An Address"}});
        up("factory 1.6-, bad tracker", vec!["1.3.1", "1.5.1", "1.6.0"], &bad, &old, None);
        up("factory 1.7, bad tracker", vec!["1.7.0"], &bad, &without, None);
        up("factory 1.8", vec!["1.8.0", "1.8.1"], &json!({}), &want, Some(equals(&f, want.clone(), &[])));
    }
    // tracker
    for secs in [true, false] {
        let mut w = World::new();
        let d = w.tf_new(ALICE, "hist", None);
        let c = w.init(OWNER, TRACKER_V1, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": d}), &[]).unwrap();
        w.tf_hook(&d, &c);
        let mut times = vec![w.time];
        w.tf_mint(ALICE, &d, 1000, ALICE).unwrap();
        for v in [100, 250] {
            w.advance(10, 2);
            times.push(w.time);
            w.send(ALICE, BOB, &d, v).unwrap();
        }
        w.tf_burn(ALICE, &d, 50, BOB).unwrap();
        w.advance(10, 2);
        let mut now = World::new();
        let d2 = now.tf_new(ALICE, "hist", None);
        let c2 = now.init(OWNER, TRACKER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": d2, "track_over_seconds": true}), &[]).unwrap();
        let i = item(&now, &c2, "contract_info");
        let cc = c.clone();
        v.push(Up {
            name: "tracker",
            c: c.clone(),
            code: TRACKER,
            from: "astroport-tokenfactory-tracker",
            versions: vec!["1.0.0"],
            msg: json!({"track_over_seconds": secs}),
            old: w,
            post: Some(Box::new(move |a, b| {
                let (x, y) = (rest(a, &cc, &["c"]), rest(b, &cc, &["c"]));
                if x != y {
                    return Err(changed(&x, &y));
                }
                let (p, q) = (item(a, &cc, "c"), item(b, &cc, "c"));
                if p["d"] != q["d"] || p["m"] != q["m"] {
                    return Err(format!("{p} became {q}"));
                }
                for u in [ALICE, BOB] {
                    let m1 = json!({"balance_at": {"address": u}});
                    let now = b.q(&cc, m1.clone());
                    if a.q(&cc, m1.clone()) != now {
                        return Err(format!("balance of {u}: {:?} became {now:?}", a.q(&cc, m1)));
                    }
                }
                let (s, t) = (a.q(&cc, json!({"total_supply_at": {}})), b.q(&cc, json!({"total_supply_at": {}})));
                if s != t || s.is_err() {
                    return Err(format!("supply: {s:?} became {t:?}"));
                }
                // tracking goes on
                let mut n = b.clone();
                n.advance(1000, 10);
                n.send(ALICE, BOB, &format!("factory/{ALICE}/hist"), 7)?;
                n.advance(1, 1);
                let (x, y) = (b.q(&cc, json!({"balance_at": {"address": BOB}}))?, n.q(&cc, json!({"balance_at": {"address": BOB}}))?);
                if u(&y) != u(&x) + 7 {
                    return Err(format!("{y} after 7 more than {x}"));
                }
                Ok(())
            })),
            now: Some((i["contract"].as_str().unwrap().into(), i["version"].as_str().unwrap().into())),
        });
        let _ = times;
    }
    // oracle
    {
        let o = at["oracle"].clone();
        let mut w = e.w.clone();
        for _ in 0..3 {
            w.exec_json(ALICE, &o, json!({"update": {}}), &[]).unwrap();
            w.advance(90_000, 10);
            w.exec_json(ALICE, &e.pools["xyk"].addr, json!({"swap": {"offer_asset": native("uaaa").asset(90_000_000), "max_spread": "0.5"}}), &[coin(90_000_000, "uaaa")]).unwrap();
        }
        let p = item(&w, &o, "price_last");
        let mut old = w.clone();
        put(
            &mut old,
            &o,
            "price_last",
            &json!({"price0_cumulative_last": p["cumulative_prices"][0][2], "price1_cumulative_last": p["cumulative_prices"][1][2],
                "price_0_average": p["average_prices"][0][2], "price_1_average": p["average_prices"][1][2], "block_timestamp_last": p["block_timestamp_last"]}),
        );
        for k in raw(&w, &o).keys() {
            if k.starts_with(&mapkey("precisions", b"")) {
                old.unpoke(&o, k);
            }
        }
        assert!(p["average_prices"][1][2] != json!("0") && p["average_prices"][0][2] != p["average_prices"][1][2]);
        v.push(Up { name: "oracle", c: o.clone(), code: ORACLE, from: "astroport-oracle", versions: vec!["1.0.0", "1.0.1", "1.0.2"], msg: json!({}), old, post: Some(equals(&o, w, &[])), now: ver("oracle") });
    }
    // maker
    {
        let m = at["maker"].clone();
        let mut w = e.w.clone();
        let none = json!({"receiver": "", "seizable_assets": []});
        w.exec_json(OWNER, &m, json!({"enable_rewards": {"blocks": 50}}), &[]).unwrap();
        w.exec_json(OWNER, &m, json!({"update_bridges": {"add": [[native("uccc").info(), native("uaaa").info()]]}}), &[]).unwrap();
        w.exec_json(OWNER, &m, json!({"update_config": {"second_receiver_params": {"second_fee_receiver": FEE, "second_receiver_cut": "20"}, "basic_asset": native("uaaa").info(), "max_spread": "0.1"}}), &[]).unwrap();
        w.exec_json(ALICE, &m, json!({"collect": {"assets": [{"info": native("uaaa").info(), "limit": null}]}}), &[]).unwrap();
        w.advance(500, 20);
        let mut up = |name, versions: Vec<&'static str>, msg: Value, old: &World, post| {
            v.push(Up { name, c: m.clone(), code: MAKER, from: "astroport-maker", versions, msg, old: old.clone(), post, now: ver("maker") });
        };
        let cfg = item(&w, &m, "config");
        for seize in [true, false] {
            let mut old = w.clone();
            if !seize {
                put(&mut old, &m, "seize_config", &Value::Null);
            }
            let mut want = w.clone();
            put(&mut want, &m, "seize_config", &none);
            up("maker 1.6", vec!["1.6.0"], json!({}), &old, Some(equals(&m, want.clone(), &[])));
            let mut c = cfg.clone();
            c.as_object_mut().unwrap().remove("dev_fund_conf");
            put(&mut old, &m, "config", &c);
            let mut c1 = cfg.clone();
            c1["dev_fund_conf"] = Value::Null;
            put(&mut want, &m, "config", &c1);
            up("maker 1.4", vec!["1.4.0", "1.5.0"], json!({}), &old, Some(equals(&m, want.clone(), &[])));
            c.as_object_mut().unwrap().remove("collect_cooldown");
            for second in [true, false] {
                let mut old = old.clone();
                let mut want = want.clone();
                let mut c = c.clone();
                if !second {
                    c.as_object_mut().unwrap().remove("second_receiver_cfg");
                }
                put(&mut old, &m, "config", &c);
                put(&mut old, &m, "last_collect_ts", &Value::Null);
                put(&mut want, &m, "last_collect_ts", &json!(w.time));
                for (cd, ok) in [(Value::Null, true), (json!(30), true), (json!(600), true), (json!(29), false), (json!(601), false), (json!(0), false)] {
                    for (sr, ok2) in [(Value::Null, true), (json!(["wasm1second", "1"]), true), (json!(["wasm1second", "50"]), true), (json!(["wasm1second", "0"]), false), (json!(["wasm1second", "51"]), false)] {
                        let mut n = c1.clone();
                        n["collect_cooldown"] = cd.clone();
                        if sr.is_array() {
                            n["second_receiver_cfg"] = json!({"second_fee_receiver": sr[0], "second_receiver_cut": sr[1]});
                        } else if !second {
                            n["second_receiver_cfg"] = Value::Null;
                        }
                        let mut want = want.clone();
                        put(&mut want, &m, "config", &n);
                        let msg = json!({"collect_cooldown": cd, "second_receiver_params": if sr.is_array() { json!({"second_fee_receiver": sr[0], "second_receiver_cut": sr[1]}) } else { Value::Null }});
                        up("maker 1.2", vec!["1.2.0"], msg, &old, (ok && ok2).then(|| equals(&m, want, &[])));
                    }
                }
            }
        }
    }
    // vesting: from the published 1.3.1, converting its token
    for (neutron, cw20, code) in [(false, false, VESTING), (false, false, VESTING_V1), (false, true, VESTING), (false, true, VESTING_V1), (true, false, VESTING_V1)] {
        for case in ["ok", "short", "other"] {
            let mut w = World::new();
            w.time = ECO_TIME;
            w.fund(OWNER, OLDASTRO, 1 << 80);
            let t = new_cw20(&mut w, "Old Astro", 6, &[(OWNER, 1 << 80)]);
            let t2 = new_cw20(&mut w, "Other", 6, &[(OWNER, 1 << 80)]);
            let old = if cw20 { Tok::T(t.clone()) } else { native(OLDASTRO) };
            let c = w.init(OWNER, code, &json!({"owner": OWNER, "vesting_token": old.info()}), &[]).unwrap();
            let now = w.time;
            let acc = json!({"register_vesting_accounts": {"vesting_accounts": [
                {"address": ALICE, "schedules": [{"start_point": {"time": now - 10, "amount": "1000"}, "end_point": {"time": now + 100_000, "amount": "100000"}}]},
                {"address": BOB, "schedules": [{"start_point": {"time": now + 50, "amount": "7000"}}]}]}});
            if cw20 {
                w.exec_json(OWNER, &t, json!({"send": {"contract": c, "amount": "107000", "msg": b64(&acc)}}), &[]).unwrap();
            } else {
                w.exec_json(OWNER, &c, acc, &[coin(107_000, OLDASTRO)]).unwrap();
            }
            w.advance(1000, 10);
            w.exec_json(ALICE, &c, json!({"claim": {"recipient": null, "amount": "900"}}), &[]).unwrap();
            w.exec_json(OWNER, &c, json!({"propose_new_owner": {"owner": BOB, "expires_in": 100_000}}), &[]).unwrap();
            let conv_old = match (case, cw20) {
                ("other", true) => Tok::T(t2.clone()),
                ("other", false) => native("ibc/ELSE"),
                _ => old.clone(),
            };
            let burn = if cw20 { Value::Null } else { json!({"terra_burn_addr": "terra1burn", "old_astro_transfer_channel": "channel-7"}) };
            let conv = w.init(OWNER, if neutron { CONVERTER_NEUTRON } else { CONVERTER }, &json!({"old_astro_asset_info": conv_old.info(), "new_astro_denom": ASTRO, "outpost_burn_params": burn}), &[]).unwrap();
            w.fund(&conv, ASTRO, if case == "short" { 106_099 } else { 106_100 });
            let cc = c.clone();
            let o = old.clone();
            let cv = conv.clone();
            v.push(Up {
                name: "vesting",
                c: c.clone(),
                code: VESTING,
                from: "astroport-vesting",
                versions: vec!["1.1.0", "1.2.0", "1.3.0", "1.3.1"],
                msg: json!({"converter_contract": conv}),
                old: w,
                post: (case == "ok").then(|| -> Post {
                    Box::new(move |a, b| {
                        let mut want = a.clone();
                        let mut k = item(a, &cc, "config");
                        k["vesting_token"] = native(ASTRO).info();
                        put(&mut want, &cc, "config", &k);
                        let (x, y) = (rest(&want, &cc, &[]), rest(b, &cc, &[]));
                        if x != y {
                            return Err(changed(&x, &y));
                        }
                        let mut ex = Exp::default();
                        ex.mv(&cc, &cv, o.id(), 106_100).mv(&cv, &cc, ASTRO, 106_100);
                        let d = diff(&balances(a), &balances(b));
                        if d != ex.0 {
                            return Err(format!("balances moved by {d:?}, expected {:?}", ex.0));
                        }
                        for u in [ALICE, BOB] {
                            let (p, q) = (a.q(&cc, json!({"available_amount": {"address": u}})), b.q(&cc, json!({"available_amount": {"address": u}})));
                            if p != q || p.is_err() {
                                return Err(format!("{p:?} available to {u} became {q:?}"));
                            }
                        }
                        // and everything is paid in the end
                        let mut n = b.clone();
                        n.advance(200_000, 10);
                        for (u, v) in [(ALICE, 99_100), (BOB, 7000)] {
                            n.exec_json(u, &cc, json!({"claim": {}}), &[])?;
                            if n.bal(u, ASTRO) != v {
                                return Err(format!("{u} got {}", n.bal(u, ASTRO)));
                            }
                        }
                        Ok(())
                    })
                }),
                now: ver("vesting"),
            });
        }
    }
    // converter pools
    {
        let mut w = World::new();
        w.time = ECO_TIME;
        let t = new_cw20(&mut w, "Old Astro", 6, &[(OWNER, 1 << 80)]);
        let reg = new_registry(&mut w, &[OLDASTRO, ASTRO, "uaaa"].map(|d| (d.to_string(), 6u8)));
        let f = new_factory(&mut w, &reg, vec![pair_config(Kind::Xyk, 30, 0)], None, None);
        for (cw20, code) in [(false, CONVERTER), (true, CONVERTER), (false, CONVERTER_NEUTRON)] {
            let old = if cw20 { Tok::T(t.clone()) } else { native(OLDASTRO) };
            let burn = if cw20 { Value::Null } else { json!({"terra_burn_addr": "terra1burn", "old_astro_transfer_channel": "channel-7"}) };
            let conv = w.init(OWNER, code, &json!({"old_astro_asset_info": old.info(), "new_astro_denom": ASTRO, "outpost_burn_params": burn}), &[]).unwrap();
            w.fund(&conv, ASTRO, 1000);
            for (a, b, ok) in [(old.clone(), native(ASTRO), true), (native(ASTRO), old.clone(), true), (old.clone(), native("uaaa"), false), (native("uaaa"), native(ASTRO), false)] {
                let mut w = w.clone();
                let x = w.exec_json(OWNER, &f, json!({"create_pair": {"pair_type": {"xyk": {}}, "asset_infos": [a.info(), b.info()], "init_params": null}}), &[]).unwrap();
                let p = x.instantiated.iter().find(|a| w.contracts[a.as_str()].code == PAIR).unwrap().clone();
                let (pp, cv, o) = (p.clone(), conv.clone(), old.clone());
                if !cw20 {
                    w.fund(BOB, OLDASTRO, 500);
                } else {
                    w.exec_json(OWNER, &t, json!({"transfer": {"recipient": BOB, "amount": "500"}}), &[]).unwrap();
                }
                v.push(Up {
                    name: "pair_converter",
                    c: p,
                    code: PAIR_CONVERTER,
                    from: "astroport-pair",
                    versions: vec!["1.0.1", "1.1.0", "1.3.0", "1.3.3"],
                    msg: json!({"converter_contract": conv}),
                    old: w.clone(),
                    post: ok.then(|| -> Post {
                        Box::new(move |a, b| {
                            if a.q(&pp, json!({"pair": {}})).is_err() || a.q(&pp, json!({"pair": {}})) != b.q(&pp, json!({"pair": {}})) {
                                return Err(format!("{:?} became {:?}", a.q(&pp, json!({"pair": {}})), b.q(&pp, json!({"pair": {}}))));
                            }
                            if balances(a) != balances(b) {
                                return Err("balances changed".into());
                            }
                            let mut n = b.clone();
                            match &o {
                                Tok::N(d) => n.exec_json(BOB, &pp, json!({"swap": {"offer_asset": o.asset(500)}}), &[coin(500, d)])?,
                                Tok::T(t) => n.exec_json(BOB, t, json!({"send": {"contract": pp, "amount": "500", "msg": b64(&json!({"swap": {}}))}}), &[])?,
                            };
                            if n.bal(BOB, ASTRO) != 500 || o.bal(&n, &cv) != 500 {
                                return Err(format!("converting 500 gave {}", n.bal(BOB, ASTRO)));
                            }
                            Ok(())
                        })
                    }),
                    now: ver("pair_converter"),
                });
            }
        }
    }
    // taxed pools: from the published constant product pool
    for (k, tax) in [("none", json!({})), ("some", json!({"uaaa": {"tax_rate": "0.03", "tax_recipient": TAXR}})), ("bad", json!({"uaaa": {"tax_rate": "0.51", "tax_recipient": TAXR}})), ("else", json!({"uccc": {"tax_rate": "0.01", "tax_recipient": TAXR}}))] {
        let mut w = World::new();
        w.time = ECO_TIME;
        for u in [SEED, ALICE, BOB] {
            for d in ["uaaa", "ubbb"] {
                w.fund(u, d, 1 << 80);
            }
        }
        let reg = new_registry(&mut w, &["uaaa", "ubbb"].map(|d| (d.to_string(), 6u8)));
        let mut pc = pair_config(Kind::Xyk, 30, 0);
        pc["code_id"] = json!(PAIR_V1);
        let f = new_factory(&mut w, &reg, vec![pc, pair_config(Kind::Tax, 30, 0)], None, None);
        let p = w
            .init(OWNER, PAIR_V1, &json!({"asset_infos": [native("uaaa").info(), native("ubbb").info()], "token_code_id": CW20, "factory_addr": f, "init_params": b64(&json!({"track_asset_balances": true}))}), &[])
            .unwrap();
        for (u, a) in [(SEED, 1_000_000_000), (ALICE, 50_000_000)] {
            let assets = json!([native("uaaa").asset(a), native("ubbb").asset(a)]);
            w.exec_json(u, &p, json!({"provide_liquidity": {"assets": assets, "slippage_tolerance": "0.5"}}), &[coin(a, "uaaa"), coin(a, "ubbb")]).unwrap();
            w.advance(50, 5);
        }
        w.exec_json(BOB, &p, json!({"swap": {"offer_asset": native("uaaa").asset(1_000_000), "max_spread": "0.5"}}), &[coin(1_000_000, "uaaa")]).unwrap();
        w.advance(50, 5);
        let pp = p.clone();
        let some = k == "some";
        v.push(Up {
            name: "tax from pair",
            c: p,
            code: SALE_TAX,
            from: "astroport-pair",
            versions: vec!["1.3.0", "1.3.1", "1.3.3", "1.4.0", "1.5.0", "1.5.1"],
            msg: json!({"tax_configs": tax, "tax_config_admin": TAXADM}),
            old: w,
            post: (k == "none" || some).then(|| -> Post {
                Box::new(move |a, b| {
                    let pool = |w: &World| Ok::<_, String>((w.q(&pp, json!({"pool": {}}))?["assets"].clone(), w.q(&pp, json!({"cumulative_prices": {}}))?["cumulative_prices"].clone()));
                    if pool(a).is_err() || pool(a) != pool(b) {
                        return Err(format!("pool: {:?} became {:?}", pool(a), pool(b)));
                    }
                    for q in [json!({"pair": {}}), json!({"asset_balance_at": {"asset_info": native("uaaa").info(), "block_height": (a.height - 1).to_string()}})] {
                        if a.q(&pp, q.clone()).is_err() || a.q(&pp, q.clone()) != b.q(&pp, q.clone()) {
                            return Err(format!("{q}: {:?} became {:?}", a.q(&pp, q.clone()), b.q(&pp, q.clone())));
                        }
                    }
                    if balances(a) != balances(b) {
                        return Err("balances changed".into());
                    }
                    let swap = |w: &World| -> Result<u128, String> {
                        let mut w = w.clone();
                        let x = w.bal(BOB, "ubbb");
                        w.exec_json(BOB, &pp, json!({"swap": {"offer_asset": native("uaaa").asset(1_000_000), "max_spread": "0.5"}}), &[coin(1_000_000, "uaaa")])?;
                        if w.bal(TAXR, "uaaa") != if some { 30_000 } else { 0 } && w.contracts[pp.as_str()].code == SALE_TAX {
                            return Err(format!("{} of tax", w.bal(TAXR, "uaaa")));
                        }
                        Ok(w.bal(BOB, "ubbb") - x)
                    };
                    let (x, y) = (swap(a)?, swap(b)?);
                    if !some && x != y {
                        return Err(format!("a swap returning {x} returns {y}"));
                    }
                    // the providers' shares can still be redeemed
                    let lp = a.q(&pp, json!({"pair": {}}))?["liquidity_token"].as_str().unwrap().to_string();
                    let mut n = b.clone();
                    let v = n.cw20_bal(&lp, ALICE);
                    let before = n.bal(ALICE, "uaaa");
                    let r = n
                        .exec_json(ALICE, &lp, json!({"send": {"contract": pp, "amount": v.to_string(), "msg": b64(&json!({"withdraw_liquidity": {"assets": []}}))}}), &[])
                        .or_else(|_| n.exec_json(ALICE, &pp, json!({"withdraw_liquidity": {"assets": []}}), &[coin(v, &lp)]));
                    if v == 0 || r.is_err() || n.bal(ALICE, "uaaa") <= before {
                        return Err("KEY=tax-upgrade-strands-cw20-shares;after the upgrade of an astroport-pair pool to the taxed pool its LP tokens cannot be redeemed".into());
                    }
                    Ok(())
                })
            }),
            now: ver("tax"),
        });
    }
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    i: usize,
    name: String,
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M01",
        scenarios: |thorough| {
            let mut v = vec![];
            let e = eco();
            let fs = flows(&e);
            let cases: Vec<Case> = fs.iter().enumerate().map(|(i, f)| Case { i, name: f.name.clone() }).collect();
            v.push(grid("M01:faults", cases, move |c: &Case, cov| faults(&e, &fs[c.i], thorough, cov)));
            v.push(bounded(BM::new(), if thorough { 6 } else { 5 }));
            let us = ups();
            let cases: Vec<Case> = us.iter().enumerate().map(|(i, f)| Case { i, name: f.name.into() }).collect();
            v.push(grid("M01:upgrades", cases, move |c: &Case, cov| {
                let u = &us[c.i];
                for name in NAMES {
                    for ver in VERSIONS {
                        let listed = name == u.from && u.versions.contains(&ver);
                        // the storage of one documented version under the label of another
                        if !listed && us.iter().any(|o| o.code == u.code && o.from == name && o.versions.contains(&ver)) {
                            continue;
                        }
                        let mut old = u.old.clone();
                        set_ver(&mut old, &u.c, name, ver);
                        let before = full(&old);
                        let mut w = old.clone();
                        let r = w.migrate(&u.c, u.code, u.msg.clone());
                        let cur = item(&w, &u.c, "contract_info");
                        cov.hit(&format!("{}-{}", u.name, if r.is_ok() { "accepted" } else { "refused" }));
                        if r.is_err() {
                            vensure!(full(&w) == before, "trace", "a refused upgrade of {} from {name} {ver} left a trace", u.name);
                            vensure!(!listed || u.post.is_none(), &format!("upgrade:{}", u.name), "{} cannot be upgraded from {name} {ver} with {}: {:?}", u.name, u.msg, r.err());
                            continue;
                        }
                        vensure!(listed, &format!("upgrade:{}", u.name), "{} accepts an upgrade from {name} {ver}", u.name);
                        let Some(post) = &u.post else { return viol(&format!("upgrade:{}", u.name), format!("{} is upgraded from {ver} with {}", u.name, u.msg)) };
                        if let Some((n, x)) = &u.now {
                            vensure!(cur["contract"] == json!(n) && cur["version"] == json!(x), "version", "{} became {cur}", u.name);
                        }
                        if let Err(m) = post(&old, &w) {
                            match m.strip_prefix("KEY=").and_then(|m| m.split_once(';')) {
                                Some((k, m)) => cov.soft(k, m),
                                None => return viol(&format!("upgrade:{}", u.name), format!("upgrade of {} from {ver}: {m}", u.name)),
                            }
                        }
                    }
                }
                Ok(())
            }));
            // every contract under the code of every other
            let e = eco();
            let codes = [FACTORY, PAIR, STABLE, PCL, SALE_TAX, TRANSMUTER, ROUTER, TRACKER, REGISTRY, INCENTIVES, VESTING, STAKING, MAKER, XASTRO_TOKEN, ORACLE, PAIR_CONVERTER];
            let names: Vec<&'static str> = e.at.keys().copied().collect();
            let cases: Vec<Case> = names.iter().enumerate().map(|(i, n)| Case { i, name: n.to_string() }).collect();
            v.push(grid("M01:crossed", cases, move |c: &Case, cov| {
                let a = &e.at[names[c.i]];
                for code in codes {
                    for msg in [json!({}), json!({"track_over_seconds": true}), json!({"converter_contract": e.at["converter"]}), json!({"tax_configs": {}, "tax_config_admin": TAXADM}), json!({"tracker_config": null})] {
                        let mut w = e.w.clone();
                        let r = w.migrate(a, code, msg.clone());
                        cov.hit(if r.is_ok() { "accepted" } else { "refused" });
                        vensure!(r.is_err() && full(&w) == full(&e.w), "crossed", "{} accepts the code {code} with {msg}", names[c.i]);
                    }
                }
                Ok(())
            }));
            v
        },
        assumptions: &["a transaction whose outermost message fails is undone by the chain", "reward tokens may refuse, trap or exhaust the gas they are given; the vesting contract is funded"],
    }]
}
