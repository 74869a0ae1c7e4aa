//! C01: the router.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const DMAX: &str = "340282366920938463463.374607431768211455";

/// assets: 0 native, 1 cw20, 2 native, 3 native; pools between them, one of each kind
struct Net {
    r: String,
    toks: Vec<Tok>,
    pools: Vec<(usize, usize, Pool)>,
}
fn net() -> (World, Net) {
    let mut w = World::new();
    let users = [SEED, ALICE, BOB];
    let big = 1u128 << 100;
    let b = new_cw20(&mut w, "Token B", 6, &users.map(|u| (u, big)));
    let toks = vec![native("uaaa"), Tok::T(b), native("uccc"), native("uddd")];
    for a in users {
        for t in ["uaaa", "uccc", "uddd", "uother"] {
            w.fund(a, t, big);
        }
    }
    let reg = new_registry(&mut w, &[("uaaa".into(), 6), ("uccc".into(), 6), ("uddd".into(), 8)]);
    let configs = KINDS.iter().map(|k| pair_config(*k, if *k == Kind::Trans { 0 } else { 30 }, 3333)).collect();
    let f = new_factory(&mut w, &reg, configs, Some(FEE), None);
    let mut pools = vec![];
    for (kind, i, j, seed) in [
        (Kind::Xyk, 0, 1, [1_000_000_000, 2_500_000_000]),
        (Kind::Stable, 1, 2, [3_000_000_000, 2_000_000_000]),
        (Kind::Pcl, 0, 2, [2_000_000_000, 1_000_000_000]),
        (Kind::Trans, 0, 3, [5_000_000, 500_000_000]),
        (Kind::Tax, 2, 3, [900_000_000, 40_000_000_000u128]),
    ] {
        let mut c = Cfg::new(kind);
        let dec = [6, 6, 6, 8];
        c.dec = vec![dec[i], dec[j]];
        c.seed = seed.to_vec();
        c.user_funds = big;
        c.tax = vec![Some("0.05".into()), None];
        let p = create_pool(&mut w, &c, &f, None, &[toks[i].clone(), toks[j].clone()]);
        pools.push((i, j, p));
    }
    let r = w.init(OWNER, ROUTER, &json!({"astroport_factory": f}), &[]).unwrap();
    (w, Net { r, toks, pools })
}
impl Net {
    fn pool(&self, i: usize, j: usize) -> Option<&Pool> {
        self.pools.iter().find(|p| (p.0, p.1) == (i, j) || (p.0, p.1) == (j, i)).map(|p| &p.2)
    }
    fn ops(&self, path: &[usize]) -> Value {
        path.windows(2).map(|x| json!({"astro_swap": {"offer_asset_info": self.toks[x[0]].info(), "ask_asset_info": self.toks[x[1]].info()}})).collect()
    }
    fn run(&self, w: &mut World, who: &str, first: usize, v: u128, msg: Value) -> Result<Tx, String> {
        let m = json!({"execute_swap_operations": msg});
        match &self.toks[first] {
            Tok::N(d) => w.exec_json(who, &self.r, m, &[coin(v, d)]),
            Tok::T(t) => w.exec_json(who, t, json!({"send": {"contract": self.r, "amount": v.to_string(), "msg": b64(&m)}}), &[]),
        }
    }
    /// the same swaps made one after another by the user: what the last one pays
    fn direct(&self, w: &mut World, who: &str, path: &[usize], v: u128, to: &str, single: Option<&str>) -> Result<u128, String> {
        let mut v = v;
        let n = path.len() - 1;
        for k in 0..n {
            let (i, j) = (path[k], path[k + 1]);
            let p = self.pool(i, j).ok_or("no pool")?;
            let mut m = json!({"ask_asset_info": self.toks[j].info()});
            if n > 1 {
                m["belief_price"] = json!(DMAX);
                if let Some(s) = single {
                    m["max_spread"] = json!(s);
                }
            } else if let Some(s) = single {
                m["max_spread"] = json!(s);
            }
            let rcv = if k + 1 == n { to } else { who };
            m["to"] = json!(rcv);
            let side = p.toks.iter().position(|t| *t == self.toks[i]).unwrap();
            let was = self.toks[j].bal(w, rcv);
            p.swap(w, who, side, v, m)?;
            v = self.toks[j].bal(w, rcv) - was;
        }
        Ok(v)
    }
    fn walks(&self, n: usize) -> Vec<Vec<usize>> {
        let mut v: Vec<Vec<usize>> = (0..4).map(|i| vec![i]).collect();
        for _ in 0..n {
            v = v.into_iter().flat_map(|p| (0..4).filter(|j| self.pool(*p.last().unwrap(), *j).is_some()).map(|j| [p.clone(), vec![j]].concat()).collect::<Vec<_>>()).collect();
        }
        v
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0 fresh, 1 after trades, 2 with coins left in the router
    state: u8,
    path: Vec<usize>,
    #[serde(with = "s128")]
    v: u128,
    to: bool,
    /// 0 none, 1 exactly what it pays, 2 one more, 3 the maximum, 4 half of it
    min: u8,
    spread: Option<String>,
}
fn base(state: u8) -> (World, Net) {
    let (mut w, n) = net();
    if state == 1 {
        for p in &n.pools {
            for (i, v) in [(0, 40_000u128), (1, 900_001), (0, 123_456)] {
                p.2.swap(&mut w, BOB, i, v, json!({"max_spread": "0.5", "ask_asset_info": p.2.toks[1 - i].info()})).unwrap();
                w.advance(7, 1);
            }
        }
    }
    if state == 2 {
        for i in 0..4 {
            match &n.toks[i] {
                Tok::N(d) => w.send(BOB, &n.r, d, 55_555).unwrap(),
                Tok::T(t) => drop(w.exec_json(BOB, t, json!({"transfer": {"recipient": n.r, "amount": "55555"}}), &[]).unwrap()),
            }
        }
    }
    (w, n)
}
fn bases() -> &'static Vec<(World, Net)> {
    static B: std::sync::OnceLock<Vec<(World, Net)>> = std::sync::OnceLock::new();
    B.get_or_init(|| (0..3).map(base).collect())
}
fn route(c: &Case, cov: &mut Cov) -> Result<(), Viol> {
    let (w0, n) = &bases()[c.state as usize];
    let to = if c.to { CAROL } else { ALICE };
    let (first, last) = (c.path[0], *c.path.last().unwrap());
    let hops = c.path.len() - 1;
    // reference: the same swaps by hand
    let mut w1 = w0.clone();
    let want = n.direct(&mut w1, ALICE, &c.path, c.v, to, c.spread.as_deref());
    let ops = n.ops(&c.path);
    let sim = w0.q(&n.r, json!({"simulate_swap_operations": {"offer_amount": c.v.to_string(), "operations": ops}}));
    let min = match (&want, c.min) {
        (_, 0) => None,
        (Ok(x), 1) => Some(*x),
        (Ok(x), 2) => Some(x + 1),
        (Ok(x), 4) => Some(x / 2 + 1),
        (Err(_), 1 | 2 | 4) => Some(1),
        _ => Some(u128::MAX),
    };
    let mut w = w0.clone();
    let mut m = json!({"operations": ops, "max_spread": c.spread});
    if c.to {
        m["to"] = json!(CAROL);
    }
    if let Some(x) = min {
        m["minimum_receive"] = json!(x.to_string());
    }
    let r = n.run(&mut w, ALICE, first, c.v, m);
    if c.state == 2 {
        // coins lying in the router go along; the limits hold all the same
        let Ok(_) = r else { return Ok(()) };
        // what the sender got is on top of what is left after paying
        let start = n.toks[last].bal(w0, to) - if first == last && !c.to { c.v } else { 0 };
        let got = n.toks[last].bal(&w, to) - start;
        vensure!(got >= min.unwrap_or(0), "minimum", "{c:?} paid {got} instead of at least {min:?}");
        for i in &c.path[..hops] {
            let left = n.toks[*i].bal(&w, &n.r);
            let before = n.toks[*i].bal(w0, &n.r);
            vensure!(left <= before, "left", "{c:?} left {left} of asset {i} in the router, {before} before");
        }
        vensure!(n.toks[first].bal(&w, ALICE) >= n.toks[first].bal(w0, ALICE) - c.v, "spent", "{c:?} took more than offered");
        cov.hit("with-leftovers");
        return Ok(());
    }
    let ok = want.as_ref().is_ok_and(|x| min.is_none_or(|m| *x >= m));
    cov.hit(&format!("{hops}-hops-{}", if r.is_ok() { "accepted" } else { "refused" }));
    vensure!(r.is_ok() == ok, "accepted", "{c:?} with a minimum of {min:?}: {:?}, step by step: {want:?}", r.err());
    // nothing else in the system changes otherwise than by the swaps themselves
    let (b0, b) = (balances(w0), balances(&w));
    if !ok {
        vensure!(b0 == b, "refused", "{c:?} was refused and moved {:?}", diff(&b0, &b));
        return Ok(());
    }
    let got = want?;
    let d = diff(&b0, &b);
    let e = diff(&b0, &balances(&w1));
    vensure!(d == e, "moved", "{c:?} moved {d:?}, step by step {e:?}");
    for (_, _, p) in &n.pools {
        let pool = |w: &World| w.q(&p.addr, json!({"pool": {}}));
        vensure!(pool(&w) == pool(&w1), "moved", "{c:?}: the pool {} differs", p.addr);
    }
    let distinct = {
        let mut e: Vec<_> = c.path.windows(2).map(|x| (x[0].min(x[1]), x[0].max(x[1]))).collect();
        e.sort();
        let l = e.len();
        e.dedup();
        e.len() == l
    };
    if distinct {
        let s = sim.map_err(|e| Viol { key: "simulation".into(), msg: format!("{c:?} pays {got} and is not quoted: {e}") })?;
        vensure!(u(&s["amount"]) == got, "simulation", "{c:?} pays {got}, quoted {s}");
        cov.hit("quoted");
    }
    if n.toks[first].native() {
        let data = r.unwrap().data.ok_or_else(|| Viol { key: "data".into(), msg: format!("{c:?} returned no data") })?;
        let v: Value = serde_json::from_slice(&data).unwrap_or_default();
        vensure!(v["return_amount"].as_str() == Some(got.to_string().as_str()), "data", "{c:?} paid {got} and returned {v}");
    }
    Ok(())
}
/// reverse quotes are those of the pools one after another, and pay what was asked
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rev {
    state: u8,
    path: Vec<usize>,
    #[serde(with = "s128")]
    v: u128,
}
fn reverse(c: &Rev, cov: &mut Cov) -> Result<(), Viol> {
    let (w, n) = &bases()[c.state as usize];
    let mut want: Result<u128, String> = Ok(c.v);
    for x in c.path.windows(2).rev() {
        let Ok(v) = want else { break };
        let p = n.pool(x[0], x[1]).unwrap();
        let j = p.toks.iter().position(|t| *t == n.toks[x[1]]).unwrap();
        want = p.rev(w, j, v, Some(1 - j)).map(|r| r.0);
    }
    let got = w.q(&n.r, json!({"reverse_simulate_swap_operations": {"ask_amount": c.v.to_string(), "operations": n.ops(&c.path)}})).map(|x| u(&x));
    cov.hit(if got.is_ok() { "reverse-quoted" } else { "reverse-refused" });
    vensure!(got.is_ok() == want.is_ok() && got.as_ref().ok() == want.as_ref().ok(), "reverse", "{c:?} is quoted {got:?} instead of {want:?}");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    Empty,
    Gap,
    Same,
    UnknownPool,
    Native,
    Hops(usize),
    BadTo,
    BadAsset,
    NoFunds,
    OtherFunds,
    OtherToken,
    Internal,
    InternalTo,
    Fake,
}
fn malformed(c: &Bad, cov: &mut Cov) -> Result<(), Viol> {
    for state in [0u8, 2] {
        let (w0, n) = &bases()[state as usize];
        let mut w = w0.clone();
        let swap = |a: &Tok, b: &Tok| json!({"astro_swap": {"offer_asset_info": a.info(), "ask_asset_info": b.info()}});
        let t = &n.toks;
        let exec = |w: &mut World, ops: Value, funds: &[cosmwasm_std::Coin]| w.exec_json(ALICE, &n.r, json!({"execute_swap_operations": {"operations": ops}}), funds);
        let ua = [coin(1000, "uaaa")];
        let mut fine = false;
        let mut query = None;
        let r = match c {
            Bad::Empty => {
                query = Some(json!([]));
                exec(&mut w, json!([]), &ua)
            }
            Bad::Gap => {
                let o = json!([swap(&t[0], &t[1]), swap(&t[2], &t[3])]);
                query = Some(o.clone());
                exec(&mut w, o, &ua)
            }
            Bad::Same => {
                let o = json!([swap(&t[0], &t[0])]);
                query = Some(o.clone());
                exec(&mut w, o, &ua)
            }
            Bad::UnknownPool => {
                let o = json!([swap(&t[0], &t[1]), swap(&t[1], &t[3])]);
                query = Some(o.clone());
                exec(&mut w, o, &ua)
            }
            Bad::Native => {
                let o = json!([swap(&t[0], &t[2]), {"native_swap": {"offer_denom": "uccc", "ask_denom": "uddd"}}]);
                query = Some(o.clone());
                exec(&mut w, o, &ua)
            }
            Bad::Hops(k) => {
                let p: Vec<usize> = (0..=*k).map(|i| if i % 2 == 0 { 0 } else { 2 }).collect();
                fine = *k <= 50;
                if !fine {
                    query = Some(n.ops(&p));
                }
                exec(&mut w, n.ops(&p), &[coin(100_000_000, "uaaa")])
            }
            Bad::BadTo => w.exec_json(ALICE, &n.r, json!({"execute_swap_operations": {"operations": n.ops(&[0, 2]), "to": "BAD"}}), &ua),
            Bad::BadAsset => {
                let o = json!([swap(&t[0], &Tok::T("BAD".into()))]);
                query = Some(o.clone());
                exec(&mut w, o, &ua)
            }
            Bad::NoFunds if state == 0 => exec(&mut w, n.ops(&[0, 2]), &[]),
            Bad::OtherFunds if state == 0 => exec(&mut w, n.ops(&[0, 2]), &[coin(1000, "uddd")]),
            Bad::OtherToken if state == 0 => {
                let Tok::T(b) = &t[1] else { unreachable!() };
                w.exec_json(ALICE, b, json!({"send": {"contract": n.r, "amount": "1000", "msg": b64(&json!({"execute_swap_operations": {"operations": n.ops(&[0, 2])}}))}}), &[])
            }
            Bad::Internal => w.exec_json(ALICE, &n.r, json!({"execute_swap_operation": {"operation": swap(&t[0], &t[2]), "single": false}}), &ua),
            Bad::InternalTo => w.exec_json(ALICE, &n.r, json!({"execute_swap_operation": {"operation": swap(&t[0], &t[2]), "to": ALICE, "max_spread": "0.5", "single": true}}), &[]),
            // a forged receipt moves nothing when nothing lies in the router
            Bad::Fake if state == 0 => w.exec_json(ALICE, &n.r, json!({"receive": {"sender": ALICE, "amount": "1000", "msg": b64(&json!({"execute_swap_operations": {"operations": n.ops(&[0, 2])}}))}}), &[]),
            _ => continue,
        };
        cov.hit(if r.is_ok() { "accepted" } else { "refused" });
        let d = diff(&balances(w0), &balances(&w));
        vensure!(r.is_ok() == fine, "malformed", "{c:?} gives {:?} and moves {d:?}", r.map(|_| ()));
        vensure!(fine || d.is_empty(), "malformed", "{c:?} was refused and moved {d:?}");
        if let Some(o) = query {
            for q in [json!({"simulate_swap_operations": {"offer_amount": "1000", "operations": o}}), json!({"reverse_simulate_swap_operations": {"ask_amount": "1000", "operations": o}})] {
                vensure!(w0.q(&n.r, q.clone()).is_err(), "malformed", "{q} is answered");
            }
        }
    }
    Ok(())
}
/// the token of the middle hop makes another router call while it is being moved
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    /// min - what is paid
    over: u64,
    nested_min: bool,
    /// hops before and after the token
    before: bool,
    nested_to_same: bool,
}
fn nested(c: &Nest, cov: &mut Cov) -> Result<(), Viol> {
    let (w0, n) = net();
    let mut w = w0;
    let f = n.pools[0].2.factory.clone();
    let e = w
        .init(OWNER, NESTING_CW20, &json!({"name": "Nest", "symbol": "TOKEN", "decimals": 6, "initial_balances": [{"address": SEED, "amount": "1000000000000"}, {"address": ALICE, "amount": "1000000000"}]}), &[])
        .unwrap();
    w.fund(&e, "uaaa", 1_000_000);
    let te = Tok::T(e.clone());
    for (other, a) in [(0, 1_000_000_000u128), (2, 700_000_000)] {
        let mut cfg = Cfg::new(Kind::Xyk);
        cfg.seed = vec![];
        cfg.user_funds = 1 << 90;
        let p = create_pool(&mut w, &cfg, &f, None, &[n.toks[other].clone(), te.clone()]);
        p.provide(&mut w, SEED, &[a, 2_000_000_000], json!({})).map_err(|e| e)?;
    }
    let op = |a: &Tok, b: &Tok| json!({"astro_swap": {"offer_asset_info": a.info(), "ask_asset_info": b.info()}});
    let path = if c.before { json!([op(&n.toks[0], &te), op(&te, &n.toks[2])]) } else { json!([op(&te, &n.toks[2])]) };
    let run = |w: &mut World, min: u128| {
        let m = json!({"execute_swap_operations": {"operations": path, "minimum_receive": min.to_string(), "to": CAROL, "max_spread": "0.5"}});
        if c.before {
            w.exec_json(ALICE, &n.r, m, &[coin(5_000_000, "uaaa")])
        } else {
            w.exec_json(ALICE, &e, json!({"send": {"contract": n.r, "amount": "5000000", "msg": b64(&m)}}), &[])
        }
    };
    let inner = json!({"execute_swap_operations": {"operations": n.ops(&[0, 2]), "minimum_receive": if c.nested_min { json!("3") } else { Value::Null }, "to": if c.nested_to_same { CAROL } else { BOB }, "max_spread": "0.5"}});
    let call = json!({"execute": {"contract_addr": n.r, "msg": b64(&inner), "funds": [{"denom": "uaaa", "amount": "1000"}]}});
    w.poke(&e, b"nested", &serde_json::to_vec(&call).unwrap());
    // what the outer path pays while the token interferes
    let mut free = w.clone();
    let r0 = run(&mut free, 0);
    let Ok(_) = r0 else {
        cov.hit("nested-call-refused");
        return Ok(());
    };
    let got = free.bal(CAROL, "uccc") - w.bal(CAROL, "uccc");
    let min = got + c.over as u128;
    let mut w2 = w.clone();
    let r = run(&mut w2, min);
    let paid = w2.bal(CAROL, "uccc") - w.bal(CAROL, "uccc");
    cov.hit(if r.is_ok() { "accepted" } else { "refused" });
    vensure!(r.is_err() || paid >= min, "nested", "{c:?} paid {paid} although at least {min} was asked for");
    Ok(())
}

// ---------------------------------------------------------------- histories
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Route { by: String, path: Vec<usize>, #[serde(with = "s128")] v: u128 },
    Direct { pool: usize, i: usize, #[serde(with = "s128")] v: u128 },
    Wait,
}
struct M {
    paths: Vec<Vec<usize>>,
}
impl Model for M {
    type S = World;
    type Op = Op;
    fn name(&self) -> String {
        "C01:histories".into()
    }
    fn init(&self) -> World {
        bases()[0].0.clone()
    }
    fn ops(&self, _: &World, _: usize) -> Vec<Op> {
        let mut v = vec![Op::Wait];
        for p in &self.paths {
            v.push(Op::Route { by: ALICE.into(), path: p.clone(), v: 3_000_000 });
        }
        for pool in 0..5 {
            v.push(Op::Direct { pool, i: pool % 2, v: 1_500_000 });
        }
        v
    }
    fn step(&self, s: &World, op: &Op, cov: &mut Cov) -> Result<Option<World>, Viol> {
        let n = &bases()[0].1;
        let mut w = s.clone();
        match op {
            Op::Wait => w.advance(600, 100),
            Op::Direct { pool, i, v } => {
                let p = &n.pools[*pool].2;
                let r = p.swap(&mut w, BOB, *i, *v, json!({"max_spread": "0.5", "ask_asset_info": p.toks[1 - i].info()}));
                if r.is_err() {
                    cov.hit("direct-refused");
                    return Ok(None);
                }
                cov.hit("direct");
            }
            Op::Route { by, path, v } => {
                let mut w1 = s.clone();
                let want = n.direct(&mut w1, by, path, *v, by, Some("0.5"));
                let r = n.run(&mut w, by, path[0], *v, json!({"operations": n.ops(path), "max_spread": "0.5", "minimum_receive": want.clone().ok().map(|x| x.to_string())}));
                cov.hit(if r.is_ok() { "routed" } else { "route-refused" });
                vensure!(r.is_ok() == want.is_ok(), "accepted", "{op:?}: {:?}, step by step {want:?}", r.err());
                if r.is_err() {
                    return Ok(None);
                }
                let (d, e) = (diff(&balances(s), &balances(&w)), diff(&balances(s), &balances(&w1)));
                vensure!(d == e, "moved", "{op:?} moved {d:?}, step by step {e:?}");
            }
        }
        Ok(Some(w))
    }
    fn fp(&self, s: &World) -> u128 {
        let mut h = H::new();
        s.fp(&mut h, true);
        h.done()
    }
    fn check(&self, s: &World, _: &mut Cov) -> Result<(), Viol> {
        let n = &bases()[0].1;
        for t in &n.toks {
            vensure!(t.bal(s, &n.r) == 0, "left", "{} of {t:?} is left in the router", t.bal(s, &n.r));
        }
        Ok(())
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C01",
        scenarios: |t| {
            let n = &bases()[0].1;
            let mut cases = vec![];
            let mut revs = vec![];
            let amounts: &[u128] = if t { &[1, 90, 777, 50_000, 2_000_000, 80_000_000] } else { &[1, 777, 2_000_000] };
            for l in 1..=if t { 4 } else { 3 } {
                for path in n.walks(l) {
                    for v in amounts {
                        for state in 0..3 {
                            for (min, to) in [(0, false), (1, true), (2, false), (2, true), (3, true), (4, false), (1, false)] {
                                if state == 2 && (min == 3 || l > 2) {
                                    continue;
                                }
                                for spread in [None, Some("0.5".to_string()), Some("0.0001".to_string())] {
                                    // a limit is only enforced on a single swap
                                    if spread.as_deref() == Some("0.0001") && min != 1 && !t {
                                        continue;
                                    }
                                    if (l > 1 && spread.is_none() && !t) || (l == 3 && to && min != 1 && !t) {
                                        continue;
                                    }
                                    cases.push(Case { state, path: path.clone(), v: *v, to, min, spread });
                                }
                            }
                            if state < 2 {
                                revs.push(Rev { state, path: path.clone(), v: *v });
                            }
                        }
                    }
                }
            }
            let mut bad = vec![Bad::Empty, Bad::Gap, Bad::Same, Bad::UnknownPool, Bad::Native, Bad::BadTo, Bad::BadAsset, Bad::NoFunds, Bad::OtherFunds, Bad::OtherToken, Bad::Internal, Bad::InternalTo, Bad::Fake];
            bad.extend([1, 2, 49, 50, 51, 60].map(Bad::Hops));
            let mut nests = vec![];
            for over in [0, 1, 1000] {
                for k in 0..8 {
                    nests.push(Nest { over, nested_min: k & 1 > 0, before: k & 2 > 0, nested_to_same: k & 4 > 0 });
                }
            }
            vec![
                grid("C01:routes", cases, route),
                grid("C01:reverse", revs, reverse),
                grid("C01:malformed", bad, malformed),
                grid("C01:nested", nests, nested),
                bounded(M { paths: vec![vec![0, 1, 2], vec![1, 2, 3, 0], vec![2, 0, 1, 2], vec![3, 2], vec![0, 3, 0, 2, 1]] }, if t { 5 } else { 4 }),
            ]
        },
        assumptions: &["tokens move as ordinary cosmos coins and cw20 tokens; a token that interferes while it is moved does so only by further calls"],
    }]
}
