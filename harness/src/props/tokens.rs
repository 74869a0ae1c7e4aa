//! H01, H02: the xASTRO token. H03: the token factory tracker.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const MINTER: &str = "wasm1minter";

// ---------------------------------------------------------------- H01, H02
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Exp {
    Never,
    Height(u64),
    Time(u64),
}
impl Exp {
    fn json(&self) -> Value {
        match self {
            Exp::Never => json!({"never": {}}),
            Exp::Height(h) => json!({"at_height": h}),
            Exp::Time(t) => json!({"at_time": (t * 1_000_000_000).to_string()}),
        }
    }
    fn over(&self, w: &World) -> bool {
        match self {
            Exp::Never => false,
            Exp::Height(h) => w.height >= *h,
            Exp::Time(t) => w.time >= *t,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Transfer { by: String, to: String, #[serde(with = "s128")] v: u128 },
    Send { by: String, #[serde(with = "s128")] v: u128 },
    Mint { by: String, to: String, #[serde(with = "s128")] v: u128 },
    Burn { by: String, #[serde(with = "s128")] v: u128 },
    Inc { by: String, spender: String, #[serde(with = "s128")] v: u128, exp: Option<Exp> },
    Dec { by: String, spender: String, #[serde(with = "s128")] v: u128, exp: Option<Exp> },
    TransferFrom { by: String, owner: String, to: String, #[serde(with = "s128")] v: u128 },
    SendFrom { by: String, owner: String, #[serde(with = "s128")] v: u128 },
    BurnFrom { by: String, owner: String, #[serde(with = "s128")] v: u128 },
    Block,
}
type Hist = BTreeMap<u64, (BTreeMap<String, u128>, u128)>;
#[derive(Clone)]
struct S {
    w: World,
    b: BTreeMap<String, u128>,
    supply: u128,
    al: BTreeMap<(String, String), (u128, Exp)>,
    /// state at the beginning of each block
    log: Hist,
}
struct M {
    name: String,
    w0: World,
    c: String,
    sink: String,
    b0: BTreeMap<String, u128>,
    cap: Option<u128>,
    hist: bool,
}
impl M {
    fn new(name: &str, init: &[(&str, u128)], cap: Option<u128>, hist: bool) -> M {
        let mut w = World::new();
        let sink = w.init(OWNER, SINK, &json!({}), &[]).unwrap();
        let c = w
            .init(OWNER, XASTRO_TOKEN, &json!({"name": "xAstro", "symbol": "xASTRO", "decimals": 6,
                "initial_balances": init.iter().map(|(a, v)| json!({"address": a, "amount": v.to_string()})).collect::<Vec<_>>(),
                "mint": {"minter": MINTER, "cap": cap.map(|x| x.to_string())}}), &[])
            .unwrap();
        M { name: name.into(), w0: w, c, sink, b0: init.iter().map(|(a, v)| (a.to_string(), *v)).collect(), cap, hist }
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        let supply = self.b0.values().sum();
        S { w: self.w0.clone(), b: self.b0.clone(), supply, al: BTreeMap::new(), log: BTreeMap::from([(self.w0.height, (BTreeMap::new(), 0))]) }
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        let mut v = vec![];
        let bal = |a: &str| s.b.get(a).copied().unwrap_or(0);
        let st = |x: &str| x.to_string();
        for by in [ALICE, BOB] {
            let other = if by == ALICE { BOB } else { ALICE };
            let mut a = if self.hist { vec![3, bal(by)] } else { vec![0, 3, bal(by), bal(by).saturating_add(1)] };
            a.sort();
            a.dedup();
            for x in a {
                v.push(Op::Transfer { by: st(by), to: st(other), v: x });
                if by == ALICE && !self.hist {
                    v.push(Op::Transfer { by: st(by), to: st(by), v: x });
                    v.push(Op::Send { by: st(by), v: x });
                }
            }
        }
        let room = self.cap.map(|c| c - s.supply);
        let mut a = vec![2];
        if !self.hist {
            a.push(0);
            a.push((u128::MAX - s.supply).saturating_add(1));
            if let Some(r) = room {
                a.push(r);
                a.push(r + 1);
            }
        }
        for x in a {
            v.push(Op::Mint { by: st(MINTER), to: st(BOB), v: x });
        }
        v.push(Op::Mint { by: st(MINTER), to: st(MINTER), v: 7 });
        v.push(Op::Mint { by: st(ALICE), to: st(ALICE), v: 2 });
        for x in [1, bal(MINTER), bal(MINTER).saturating_add(1)] {
            v.push(Op::Burn { by: st(MINTER), v: x });
        }
        v.push(Op::Burn { by: st(ALICE), v: 1 });
        if !self.hist {
            v.push(Op::Burn { by: st(MINTER), v: 0 });
            for sp in [BOB, MINTER, ALICE] {
                for x in [4, 100] {
                    v.push(Op::Inc { by: st(ALICE), spender: st(sp), v: x, exp: None });
                }
            }
            for e in [Exp::Never, Exp::Height(s.w.height + 1), Exp::Time(s.w.time + 7), Exp::Height(s.w.height)] {
                v.push(Op::Inc { by: st(ALICE), spender: st(BOB), v: 4, exp: Some(e) });
            }
            v.push(Op::Dec { by: st(ALICE), spender: st(BOB), v: 3, exp: None });
            v.push(Op::Dec { by: st(ALICE), spender: st(BOB), v: 3, exp: Some(Exp::Height(s.w.height + 1)) });
            v.push(Op::Dec { by: st(ALICE), spender: st(MINTER), v: 4, exp: None });
        } else {
            v.push(Op::Inc { by: st(ALICE), spender: st(BOB), v: 100, exp: None });
            v.push(Op::Inc { by: st(ALICE), spender: st(MINTER), v: 100, exp: None });
        }
        for by in [BOB, MINTER] {
            let al = s.al.get(&(st(ALICE), st(by))).map_or(0, |x| x.0);
            let mut a = vec![1];
            if !self.hist {
                a.extend([al, al + 1, bal(ALICE), bal(ALICE).saturating_add(1)]);
                a.retain(|x| *x > 0);
                a.sort();
                a.dedup();
            }
            for x in a {
                if by == BOB || !self.hist {
                    v.push(Op::TransferFrom { by: st(by), owner: st(ALICE), to: st(by), v: x });
                }
                v.push(Op::BurnFrom { by: st(by), owner: st(ALICE), v: x });
            }
            if !self.hist {
                v.push(Op::SendFrom { by: st(by), owner: st(ALICE), v: 2 });
                v.push(Op::TransferFrom { by: st(by), owner: st(ALICE), to: st(ALICE), v: 1 });
            } else if by == BOB {
                v.push(Op::SendFrom { by: st(by), owner: st(ALICE), v: 2 });
            }
        }
        v.push(Op::Block);
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        let bal = |a: &str| s.b.get(a).copied().unwrap_or(0);
        let mv = |n: &mut S, from: &str, to: &str, v: u128| {
            *n.b.entry(from.into()).or_default() -= v;
            *n.b.entry(to.into()).or_default() += v;
        };
        // (message, sender, expected, hook expected)
        let mut hook: Option<(String, u128)> = None;
        let allow = |o: &str, sp: &str, v: u128| s.al.get(&(o.to_string(), sp.to_string())).is_some_and(|(a, e)| *a >= v && !e.over(&s.w));
        let (by, msg, ok) = match op {
            Op::Block => {
                n.w.advance(7, 1);
                n.log.insert(n.w.height, (s.b.clone(), s.supply));
                return Ok(Some(n));
            }
            Op::Transfer { by, to, v } => {
                let ok = *v > 0 && *v <= bal(by);
                if ok {
                    mv(&mut n, by, to, *v);
                }
                (by, json!({"transfer": {"recipient": to, "amount": v.to_string()}}), ok)
            }
            Op::Send { by, v } => {
                let ok = *v > 0 && *v <= bal(by);
                if ok {
                    mv(&mut n, by, &self.sink, *v);
                    hook = Some((by.clone(), *v));
                }
                (by, json!({"send": {"contract": self.sink, "amount": v.to_string(), "msg": b64(&json!({"x": 5}))}}), ok)
            }
            Op::Mint { by, to, v } => {
                let ok = *v > 0 && by == MINTER && s.supply.checked_add(*v).is_some_and(|t| self.cap.is_none_or(|c| t <= c));
                if ok {
                    *n.b.entry(to.clone()).or_default() += v;
                    n.supply += v;
                }
                (by, json!({"mint": {"recipient": to, "amount": v.to_string()}}), ok)
            }
            Op::Burn { by, v } => {
                let ok = *v > 0 && by == MINTER && *v <= bal(by);
                if ok {
                    *n.b.entry(by.clone()).or_default() -= v;
                    n.supply -= v;
                }
                (by, json!({"burn": {"amount": v.to_string()}}), ok)
            }
            Op::Inc { by, spender, v, exp } => {
                let ok = by != spender && !exp.as_ref().is_some_and(|e| e.over(&s.w));
                if ok {
                    let a = n.al.entry((by.clone(), spender.clone())).or_insert((0, Exp::Never));
                    a.0 += v;
                    if let Some(e) = exp {
                        a.1 = e.clone();
                    }
                }
                (by, json!({"increase_allowance": {"spender": spender, "amount": v.to_string(), "expires": exp.as_ref().map(|e| e.json())}}), ok)
            }
            Op::Dec { by, spender, v, exp } => {
                let k = (by.clone(), spender.clone());
                let cur = s.al.get(&k);
                let ok = by != spender && cur.is_some_and(|c| c.0 <= *v || !exp.as_ref().is_some_and(|e| e.over(&s.w)));
                if ok {
                    if cur.unwrap().0 <= *v {
                        n.al.remove(&k);
                    } else {
                        let a = n.al.get_mut(&k).unwrap();
                        a.0 -= v;
                        if let Some(e) = exp {
                            a.1 = e.clone();
                        }
                    }
                }
                (by, json!({"decrease_allowance": {"spender": spender, "amount": v.to_string(), "expires": exp.as_ref().map(|e| e.json())}}), ok)
            }
            Op::TransferFrom { by, owner, to, v } => {
                let ok = allow(owner, by, *v) && *v <= bal(owner);
                if ok {
                    n.al.get_mut(&(owner.clone(), by.clone())).unwrap().0 -= v;
                    mv(&mut n, owner, to, *v);
                }
                (by, json!({"transfer_from": {"owner": owner, "recipient": to, "amount": v.to_string()}}), ok)
            }
            Op::SendFrom { by, owner, v } => {
                let ok = allow(owner, by, *v) && *v <= bal(owner);
                if ok {
                    n.al.get_mut(&(owner.clone(), by.clone())).unwrap().0 -= v;
                    mv(&mut n, owner, &self.sink, *v);
                    hook = Some((by.clone(), *v));
                }
                (by, json!({"send_from": {"owner": owner, "contract": self.sink, "amount": v.to_string(), "msg": b64(&json!({"x": 5}))}}), ok)
            }
            Op::BurnFrom { by, owner, v } => {
                let ok = by == MINTER && allow(owner, by, *v) && *v <= bal(owner);
                if ok {
                    n.al.get_mut(&(owner.clone(), by.clone())).unwrap().0 -= v;
                    *n.b.entry(owner.clone()).or_default() -= v;
                    n.supply -= v;
                }
                (by, json!({"burn_from": {"owner": owner, "amount": v.to_string()}}), ok)
            }
        };
        let r = n.w.exec_json(by, &self.c, msg, &[]);
        let kind = format!("{op:?}").split(' ').next().unwrap().to_lowercase();
        cov.hit(&format!("{kind}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        vensure!(r.is_ok() == ok, kind, "{op:?} at height {} with balances {:?}, supply {}, allowances {:?}: {:?}", s.w.height, s.b, s.supply, s.al, r.err());
        if let (Some((by, v)), Ok(t)) = (&hook, &r) {
            let c: Vec<_> = t.calls.iter().filter(|c| c.1 == self.sink).collect();
            let exp = json!({"receive": {"sender": by, "amount": v.to_string(), "msg": b64(&json!({"x": 5}))}});
            vensure!(c.len() == 1 && c[0].0 == self.c && serde_json::from_str::<Value>(&c[0].2).unwrap() == exp, "hook", "{op:?} notified {c:?}");
        }
        Ok(ok.then_some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{:?}{}{:?}{:?}", s.b, s.supply, s.al, s.log));
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        let q = |m: Value| s.w.q(&self.c, m).map_err(|e| Viol { key: "query".into(), msg: e });
        let who = [ALICE, BOB, MINTER, CAROL, self.sink.as_str()];
        let sup = u(&q(json!({"token_info": {}}))?["total_supply"]);
        vensure!(sup == s.supply, "supply", "the supply is {sup} instead of {}", s.supply);
        vensure!(s.b.values().sum::<u128>() == sup, "sum", "balances {:?} do not add up to {sup}", s.b);
        for a in who {
            let b = u(&q(json!({"balance": {"address": a}}))?["balance"]);
            vensure!(b == s.b.get(a).copied().unwrap_or(0), "balance", "{a} has {b} instead of {:?}", s.b.get(a));
        }
        for o in [ALICE, BOB] {
            for sp in [BOB, MINTER, ALICE] {
                let a = q(json!({"allowance": {"owner": o, "spender": sp}}))?;
                let (v, e) = s.al.get(&(o.to_string(), sp.to_string())).cloned().unwrap_or((0, Exp::Never));
                vensure!(u(&a["allowance"]) == v && a["expires"] == e.json(), "allowance", "the allowance {o} gave {sp} is {a} instead of {v} {e:?}");
            }
        }
        if self.hist {
            for h in self.w0.height - 1..=s.w.height + 1 {
                // balances at the beginning of the block, supply at its end
                let zero = (BTreeMap::new(), 0);
                let cur = (s.b.clone(), s.supply);
                let b = if h > s.w.height { &cur } else { s.log.get(&h).unwrap_or(&zero) };
                let e = if h >= s.w.height { &cur } else { s.log.get(&(h + 1)).unwrap_or(&zero) };
                for a in who {
                    let r = u(&q(json!({"balance_at": {"address": a, "block": h}}))?["balance"]);
                    let x = b.0.get(a).copied().unwrap_or(0);
                    vensure!(r == x, "history", "at the beginning of block {h} (now {}) {a} had {x} and not {r}", s.w.height);
                }
                let r = u(&q(json!({"total_supply_at": {"block": h}}))?);
                vensure!(r == e.1, "supply-history", "in block {h} (now {}) the supply was {} and not {r}", s.w.height, e.1);
                cov.hit(if h < s.w.height { "past-block" } else { "current-block" });
            }
        }
        Ok(())
    }
}
/// initial balances by account number
fn initial() -> Box<dyn Runner> {
    let mut cases: Vec<(Vec<(u8, u64)>, Option<u64>)> = vec![];
    for cap in [None, Some(0), Some(10), Some(11)] {
        for a in [vec![], vec![(0, 10)], vec![(0, 0)], vec![(0, 5), (1, 5)], vec![(0, 5), (0, 5)], vec![(0, 5), (1, 3), (0, 2)], vec![(2, 11)], vec![(0, 6), (1, 5)], vec![(0, 4), (1, 4), (2, 3)]] {
            cases.push((a, cap));
        }
    }
    grid("H01:initial-balances", cases, |c: &(Vec<(u8, u64)>, Option<u64>), cov: &mut Cov| {
        let mut w = World::new();
        let name = |i: u8| [ALICE, BOB, CAROL][i as usize];
        let total: u64 = c.0.iter().map(|x| x.1).sum();
        let r = w.init(OWNER, XASTRO_TOKEN, &json!({"name": "xAstro", "symbol": "xASTRO", "decimals": 6,
            "initial_balances": c.0.iter().map(|(a, v)| json!({"address": name(*a), "amount": v.to_string()})).collect::<Vec<_>>(),
            "mint": {"minter": MINTER, "cap": c.1.map(|x| x.to_string())}}), &[]);
        cov.hit(if r.is_ok() { "created" } else { "refused" });
        let mut who: Vec<u8> = c.0.iter().map(|x| x.0).collect();
        who.sort();
        let n = who.len();
        who.dedup();
        let Ok(t) = r else {
            vensure!(c.1.is_some_and(|k| total > k) || who.len() < n, "initial", "{c:?} was refused: {:?}", r.err());
            return Ok(());
        };
        vensure!(c.1.is_none_or(|k| total <= k), "cap", "{c:?} was accepted");
        let sup = u(&w.q(&t, json!({"token_info": {}})).unwrap()["total_supply"]);
        let sum: u128 = (0..3).map(|a| u(&w.q(&t, json!({"balance": {"address": name(a)}})).unwrap()["balance"])).sum();
        vensure!(sup == sum && sup == total as u128, "initial-sum", "{c:?}: the supply is {sup} and the balances add up to {sum}");
        let at = u(&w.q(&t, json!({"total_supply_at": {"block": w.height}})).unwrap());
        vensure!(at == sup, "initial-sum", "{c:?}: the recorded supply is {at}");
        Ok(())
    })
}

/// holders and the token's listing of them
fn accounts() -> Box<dyn Runner> {
    let cases: Vec<usize> = vec![0, 1, 2, 9, 10, 11, 29, 30, 31, 45];
    grid("H01:accounts", cases, |n: &usize, cov: &mut Cov| {
        let mut w = World::new();
        let name = |i: usize| format!("wasm1acc{i:03}");
        let t = w
            .init(OWNER, XASTRO_TOKEN, &json!({"name": "xAstro", "symbol": "xASTRO", "decimals": 6, "initial_balances": (0..*n).map(|i| json!({"address": name(i), "amount": (i + 1).to_string()})).collect::<Vec<_>>(),
            "mint": {"minter": MINTER, "cap": null}}), &[])
            .unwrap();
        let all: Vec<String> = (0..*n).map(name).collect();
        for l in [None, Some(0), Some(1), Some(2), Some(7), Some(10), Some(29), Some(30), Some(31), Some(100), Some(u32::MAX)] {
            let most = l.unwrap_or(10).min(30) as usize;
            let mut starts = vec![None, Some("wasm1aaaaaa".to_string()), Some("wasm1zzzzzz".to_string())];
            starts.extend(all.iter().cloned().map(Some));
            for a in starts {
                let r = w.q(&t, json!({"all_accounts": {"start_after": a, "limit": l}})).map_err(|e| Viol { key: "accounts".into(), msg: e })?;
                let got: Vec<String> = r["accounts"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let want: Vec<String> = all.iter().filter(|x| a.as_ref().is_none_or(|a| *x > a)).take(most).cloned().collect();
                vensure!(got == want, "accounts", "{n} holders, after {a:?}, limit {l:?}: {got:?}");
            }
            cov.hit("page");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- H03
#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
    Mint { to: String, #[serde(with = "s128")] v: u128 },
    Burn { from: String, #[serde(with = "s128")] v: u128 },
    Move { from: String, to: String, #[serde(with = "s128")] v: u128 },
    Foreign { denom: String },
    Wait { s: u64, b: u64 },
}
#[derive(Clone)]
struct TS {
    w: World,
    log: Hist,
    /// a burn is not visible in the recorded supply before the next transfer or mint
    shown: u128,
}
struct TM {
    name: String,
    w0: World,
    c: String,
    d: String,
    secs: bool,
}
const TW: [&str; 4] = [ALICE, BOB, CAROL, MINTER];
impl TM {
    fn new(secs: bool) -> TM {
        let mut w = World::new();
        let d = w.tf_new(MINTER, "x", None);
        let c = w.init(OWNER, TRACKER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": d, "track_over_seconds": secs}), &[]).unwrap();
        w.tf_hook(&d, &c);
        TM { name: format!("H03:{}", if secs { "seconds" } else { "blocks" }), w0: w, c, d, secs }
    }
    fn unit(&self, w: &World) -> u64 {
        if self.secs {
            w.time
        } else {
            w.height
        }
    }
    fn bals(&self, w: &World) -> BTreeMap<String, u128> {
        TW.iter().map(|a| (a.to_string(), w.bal(a, &self.d))).collect()
    }
}
impl Model for TM {
    type S = TS;
    type Op = TOp;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> TS {
        TS { w: self.w0.clone(), log: BTreeMap::from([(self.unit(&self.w0), (self.bals(&self.w0), 0))]), shown: 0 }
    }
    fn ops(&self, s: &TS, _: usize) -> Vec<TOp> {
        let st = |x: &str| x.to_string();
        let mut v = vec![TOp::Mint { to: st(ALICE), v: 10 }, TOp::Mint { to: st(MINTER), v: 3 }];
        for a in [ALICE, BOB] {
            let b = s.w.bal(a, &self.d);
            if b > 0 {
                v.push(TOp::Burn { from: st(a), v: b });
                if b > 2 {
                    v.push(TOp::Burn { from: st(a), v: 2 });
                }
                for to in [ALICE, BOB, CAROL] {
                    v.push(TOp::Move { from: st(a), to: st(to), v: b.min(4) });
                }
            }
            v.push(TOp::Move { from: st(a), to: st(CAROL), v: b + 1 });
        }
        v.push(TOp::Foreign { denom: "uother".into() });
        v.push(TOp::Foreign { denom: format!("{}x", self.d) });
        v.push(TOp::Wait { s: 1, b: 1 });
        v.push(TOp::Wait { s: 3, b: 2 });
        v.push(TOp::Wait { s: 0, b: 1 });
        v
    }
    fn step(&self, s: &TS, op: &TOp, cov: &mut Cov) -> Result<Option<TS>, Viol> {
        let mut n = s.clone();
        match op {
            TOp::Mint { to, v } => {
                n.w.tf_mint(MINTER, &self.d, *v, to).map_err(|e| Viol { key: "blocked".into(), msg: format!("{op:?} was blocked: {e}") })?;
                n.shown = n.w.supply(&self.d);
                cov.hit("mint");
            }
            TOp::Burn { from, v } => {
                n.w.tf_burn(MINTER, &self.d, *v, from).map_err(|e| Viol { key: "blocked".into(), msg: format!("{op:?} was blocked: {e}") })?;
                cov.hit("burn");
                let r = n.w.q(&self.c, json!({"total_supply_at": {}})).map_err(|e| Viol { key: "query".into(), msg: e })?;
                n.shown = u(&r);
                let (old, new) = (s.w.supply(&self.d), n.w.supply(&self.d));
                if n.shown == old {
                    cov.soft("burn-shown-late", format!("after {op:?} the supply is {new} and the tracker reports {old}"));
                } else {
                    vensure!(n.shown == new, "supply-history", "after {op:?} the supply is {new} and the tracker reports {}", n.shown);
                }
            }
            TOp::Move { from, to, v } => {
                let r = n.w.send(from, to, &self.d, *v);
                let ok = *v <= s.w.bal(from, &self.d);
                cov.hit(if from == to { "self-transfer" } else if ok { "transfer" } else { "overdraft" });
                vensure!(r.is_ok() == ok, "blocked", "{op:?}: {r:?}");
                if !ok {
                    return Ok(None);
                }
                n.shown = n.w.supply(&self.d);
            }
            TOp::Foreign { denom } => {
                let r = n.w.sudo(&self.c, json!({"block_before_send": {"from": ALICE, "to": BOB, "amount": {"denom": denom, "amount": "1"}}}));
                vensure!(r.is_err(), "foreign", "a transfer of {denom} was tracked");
                cov.hit("foreign-denom");
                return Ok(None);
            }
            TOp::Wait { s: k, b } => {
                let u0 = self.unit(&n.w);
                n.w.advance(*k, *b);
                for t in u0 + 1..=self.unit(&n.w) {
                    n.log.insert(t, (self.bals(&n.w), s.shown));
                }
            }
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &TS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.u128(s.shown);
        h.str(&format!("{:?}", s.log));
        h.done()
    }
    fn check(&self, s: &TS, cov: &mut Cov) -> Result<(), Viol> {
        let q = |m: Value| s.w.q(&self.c, m).map_err(|e| Viol { key: "query".into(), msg: e }).map(|v| u(&v));
        let now = self.unit(&s.w);
        let cur = (self.bals(&s.w), s.shown);
        let zero = (BTreeMap::new(), 0);
        for t in (self.unit(&self.w0) - 1..=now + 2).map(Some).chain([None]) {
            let e = match t {
                Some(t) if t < now => s.log.get(&t).unwrap_or(&zero),
                _ => &cur,
            };
            for a in TW {
                let r = q(json!({"balance_at": {"address": a, "unit": t}}))?;
                let x = e.0.get(a).copied().unwrap_or(0);
                vensure!(r == x, "history", "at {t:?} (now {now}) {a} had {x} and not {r}");
            }
            let r = q(json!({"total_supply_at": {"unit": t}}))?;
            let past = t.is_some_and(|t| t < now);
            vensure!(r == e.1, "supply-history", "at {t:?} (now {now}) the supply was {} and not {r}", e.1);
            cov.hit(if past { "past-unit" } else { "current-unit" });
        }
        Ok(())
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "H01",
            scenarios: |t| {
                let d = if t { 5 } else { 4 };
                vec![
                    bounded(M::new("H01:capped", &[(ALICE, 10), (BOB, 5)], Some(24), false), d),
                    bounded(M::new("H01:uncapped", &[(ALICE, u128::MAX / 2), (MINTER, 5)], None, false), d),
                    initial(),
                    accounts(),
                ]
            },
            assumptions: &["contracts notified of a transfer accept it"],
        },
        Prop {
            id: "H02",
            scenarios: |t| {
                let d = if t { 8 } else { 6 };
                vec![bounded(M::new("H02:initial", &[(ALICE, 10), (BOB, 5)], None, true), d), bounded(M::new("H02:empty", &[], None, true), d)]
            },
            assumptions: &["block heights increase; a balance at a height is the one before the block's transactions, a supply the one after them"],
        },
        Prop {
            id: "H03",
            scenarios: |t| [false, true].into_iter().map(|s| bounded(TM::new(s), if t { 8 } else { 6 })).collect(),
            assumptions: &["the bank module calls the hook before every movement of the denom, mints show in the supply before their hook and burns after it"],
        },
    ]
}
