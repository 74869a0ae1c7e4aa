//! I02: native coin registry, I03: fee granter, I05: whitelist proxy.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn kind<T: std::fmt::Debug>(op: &T) -> String {
    format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_lowercase()
}

// ---------------------------------------------------------------- I02
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    Add { by: String, coins: Vec<(String, u8)> },
    Register { by: String, coins: Vec<(String, u8)>, funds: Vec<(u64, String)> },
    Remove { by: String, coins: Vec<String> },
}
#[derive(Clone)]
struct RS {
    w: World,
    m: BTreeMap<String, u8>,
}
struct RM {
    w0: World,
    c: String,
}
const DEN: [&str; 3] = ["ubb", "uaa", "ua"];
fn uniq<'a>(v: impl Iterator<Item = &'a String>) -> bool {
    let v: Vec<_> = v.collect();
    v.iter().collect::<BTreeSet<_>>().len() == v.len()
}
impl Model for RM {
    type S = RS;
    type Op = ROp;
    fn name(&self) -> String {
        "I02".into()
    }
    fn init(&self) -> RS {
        RS { w: self.w0.clone(), m: BTreeMap::new() }
    }
    fn ops(&self, _: &RS, _: usize) -> Vec<ROp> {
        let st = |v: &[(&str, u8)]| v.iter().map(|(a, b)| (a.to_string(), *b)).collect::<Vec<_>>();
        let fu = |v: &[(u64, &str)]| v.iter().map(|(a, b)| (*a, b.to_string())).collect::<Vec<_>>();
        let mut v = vec![];
        for by in [OWNER, ALICE] {
            let by = by.to_string();
            for l in [&[("ubb", 6)][..], &[("ubb", 18)], &[("ubb", 19)], &[("ua", 0), ("uaa", 8)], &[("uaa", 5), ("uaa", 7)], &[("ua", 3), ("uaa", 255)]] {
                v.push(ROp::Add { by: by.clone(), coins: st(l) });
            }
            for (l, f) in [
                (&[("ubb", 6)][..], &[(1, "ubb")][..]),
                (&[("ubb", 7)], &[(3, "ubb"), (9, "uaa")]),
                (&[("ubb", 7)], &[(1, "uaa")]),
                (&[("ubb", 7)], &[]),
                (&[("uaa", 18), ("ua", 2)], &[(2, "ua"), (5, "uaa")]),
                (&[("uaa", 18), ("ua", 2)], &[(5, "uaa")]),
                (&[("ua", 19)], &[(2, "ua")]),
                (&[("ua", 9), ("ua", 9)], &[(2, "ua")]),
                (&[("ubb", 1), ("ua", 1)], &[(2, "ua"), (1, "ubb"), (7, "uother")]),
            ] {
                v.push(ROp::Register { by: by.clone(), coins: st(l), funds: fu(f) });
            }
            for l in [&["ubb"][..], &["ua"], &["uaa", "ua"], &["ua", "ua"], &["unknown"], &["ubb", "unknown"]] {
                v.push(ROp::Remove { by: by.clone(), coins: l.iter().map(|x| x.to_string()).collect() });
            }
        }
        v
    }
    fn step(&self, s: &RS, op: &ROp, cov: &mut Cov) -> Result<Option<RS>, Viol> {
        let mut n = s.clone();
        let (by, msg, funds, ok) = match op {
            ROp::Add { by, coins } => {
                let ok = by == OWNER && uniq(coins.iter().map(|c| &c.0)) && coins.iter().all(|c| c.1 <= 18);
                if ok {
                    n.m.extend(coins.iter().cloned());
                }
                (by, json!({"add": {"native_coins": coins}}), vec![], ok)
            }
            ROp::Register { by, coins, funds } => {
                let ok = uniq(coins.iter().map(|c| &c.0))
                    && coins.iter().all(|c| c.1 <= 18 && !s.m.contains_key(&c.0) && funds.iter().any(|f| f.1 == c.0 && f.0 > 0));
                if ok {
                    n.m.extend(coins.iter().cloned());
                }
                (by, json!({"register": {"native_coins": coins}}), funds.iter().map(|(v, d)| coin(*v as u128, d)).collect(), ok)
            }
            ROp::Remove { by, coins } => {
                let ok = by == OWNER && uniq(coins.iter()) && coins.iter().all(|c| s.m.contains_key(c));
                if ok {
                    n.m.retain(|k, _| !coins.contains(k));
                }
                (by, json!({"remove": {"native_coins": coins}}), vec![], ok)
            }
        };
        let before = balances(&s.w);
        let r = n.w.exec_json(by, &self.c, msg, &funds);
        let k = kind(op);
        cov.hit(&format!("{k}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        vensure!(r.is_ok() == ok, k, "{op:?} with {:?}: {:?}", s.m, r.err());
        vensure!(balances(&n.w) == before, "refund", "{op:?} moved {:?}", diff(&before, &balances(&n.w)));
        Ok(ok.then_some(n))
    }
    fn fp(&self, s: &RS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{:?}", s.m));
        h.done()
    }
    fn check(&self, s: &RS, cov: &mut Cov) -> Result<(), Viol> {
        let q = |m: Value| s.w.q(&self.c, m);
        for d in DEN.iter().chain(&["unknown", "uother"]) {
            let r = q(json!({"native_token": {"denom": d}})).ok().map(|r| r.as_u64().or(r["decimals"].as_u64()));
            vensure!(r == s.m.get(*d).map(|x| Some(*x as u64)), "lookup", "{d} has decimals {r:?} with {:?}", s.m);
        }
        let mut cur: Vec<Option<String>> = vec![None];
        cur.extend(DEN.iter().chain(&["u", "uab", "z"]).map(|d| Some(d.to_string())));
        pages(&s.w, &self.c, "native_tokens", "denom", "decimals", &s.m.iter().map(|(k, v)| (k.clone(), json!(v))).collect(), &cur, &[None, Some(0), Some(1), Some(2), Some(3), Some(100)], 50)?;
        cov.hit("listing");
        Ok(())
    }
}
/// every page of a listing sorted by key, whatever the cursor and limit
fn pages(w: &World, c: &str, query: &str, key: &str, val: &str, want: &BTreeMap<String, Value>, cur: &[Option<String>], limits: &[Option<u32>], default: usize) -> Result<(), Viol> {
    for a in cur {
        for l in limits {
            let mut m = serde_json::Map::new();
            m.insert(query.into(), json!({"start_after": a, "limit": l}));
            let r = w.q(c, Value::Object(m)).map_err(|e| Viol { key: "listing".into(), msg: e })?;
            let got: Vec<(String, Value)> = r.as_array().unwrap().iter().map(|x| (x[key].as_str().unwrap().to_string(), x[val].clone())).collect();
            let exp: Vec<_> =
                want.iter().filter(|x| a.as_ref().is_none_or(|a| x.0 > a)).take(l.map_or(default, |x| x as usize)).map(|(k, v)| (k.clone(), v.clone())).collect();
            vensure!(got == exp, "listing", "entries after {a:?} with limit {l:?} are {got:?} instead of {exp:?}");
        }
    }
    Ok(())
}
fn registry_grid() -> Box<dyn Runner> {
    let cases: Vec<usize> = vec![1, 2, 49, 50, 51, 77, 130];
    grid("I02:pages", cases, |n: &usize, cov: &mut Cov| {
        let mut w = World::new();
        let all: Vec<(String, u8)> = (0..*n).map(|i| (format!("u{}x{i}", i * 7919 % 31), (i % 19) as u8)).collect();
        let c = new_registry(&mut w, &all);
        let want: BTreeMap<String, Value> = all.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        let mut cur: Vec<Option<String>> = vec![None];
        cur.extend(want.keys().cloned().map(Some));
        cov.add("cursors", cur.len() as u64);
        pages(&w, &c, "native_tokens", "denom", "decimals", &want, &cur, &[None, Some(1), Some(7), Some(50), Some(51), Some(200)], 50)?;
        // walking through the whole list page by page
        for l in [1u32, 3, 10, 50, 64] {
            let (mut seen, mut a): (Vec<String>, Option<String>) = (vec![], None);
            loop {
                let r = w.q(&c, json!({"native_tokens": {"start_after": a, "limit": l}})).map_err(|e| Viol { key: "listing".into(), msg: e })?;
                let p: Vec<String> = r.as_array().unwrap().iter().map(|x| x["denom"].as_str().unwrap().to_string()).collect();
                if p.is_empty() {
                    break;
                }
                a = p.last().cloned();
                seen.extend(p);
            }
            vensure!(seen == want.keys().cloned().collect::<Vec<_>>(), "listing", "walking {n} entries by {l} saw {} entries", seen.len());
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- I03
#[derive(Clone, Debug, Serialize, Deserialize)]
enum GOp {
    Grant { by: String, to: String, v: u64, funds: Vec<(u64, String)>, bypass: bool },
    Revoke { by: String, to: String },
    Transfer { by: String, v: u64, to: Option<String> },
    Admins { by: String, add: Vec<String>, remove: Vec<String> },
    Owner { to: String },
}
#[derive(Clone)]
struct GS {
    w: World,
    owner: String,
    admins: BTreeSet<String>,
    /// allowances on the chain
    chain: BTreeMap<String, u128>,
}
struct GM {
    w0: World,
    c: String,
}
const GAS: &str = "untrn";
const G1: &str = "wasm1grantee1";
const G2: &str = "wasm1grantee2";
impl Model for GM {
    type S = GS;
    type Op = GOp;
    fn name(&self) -> String {
        "I03".into()
    }
    fn init(&self) -> GS {
        GS { w: self.w0.clone(), owner: OWNER.into(), admins: BTreeSet::from([FGADMIN.to_string()]), chain: BTreeMap::new() }
    }
    fn ops(&self, s: &GS, _: usize) -> Vec<GOp> {
        let mut v = vec![];
        let st = |x: &str| x.to_string();
        let f = |l: &[(u64, &str)]| l.iter().map(|(a, b)| (*a, b.to_string())).collect::<Vec<_>>();
        for by in [OWNER, FGADMIN, BOB, ALICE] {
            v.push(GOp::Grant { by: st(by), to: st(G1), v: 5, funds: f(&[(5, GAS)]), bypass: false });
            v.push(GOp::Grant { by: st(by), to: st(G2), v: 7, funds: f(&[]), bypass: true });
            v.push(GOp::Revoke { by: st(by), to: st(G1) });
            v.push(GOp::Transfer { by: st(by), v: 3, to: None });
            v.push(GOp::Transfer { by: st(by), v: 5, to: Some(st(CAROL)) });
            v.push(GOp::Admins { by: st(by), add: vec![st(BOB)], remove: vec![] });
        }
        for (fu, b) in [(&[(4, GAS)][..], false), (&[(6, GAS)], false), (&[(5, "uother")], false), (&[], false), (&[(5, GAS), (5, "uother")], false), (&[(2, GAS)], true)] {
            v.push(GOp::Grant { by: st(FGADMIN), to: st(G2), v: 5, funds: f(fu), bypass: b });
        }
        v.push(GOp::Grant { by: st(OWNER), to: st(G2), v: 0, funds: f(&[]), bypass: false });
        v.push(GOp::Revoke { by: st(OWNER), to: st(G2) });
        v.push(GOp::Transfer { by: st(OWNER), v: 0, to: None });
        v.push(GOp::Transfer { by: st(FGADMIN), v: 100, to: None });
        for (a, r) in [(&[][..], &[FGADMIN][..]), (&[BOB, CAROL], &[]), (&[FGADMIN], &[]), (&[BOB, CAROL], &[FGADMIN]), (&[BOB, BOB], &[]), (&[], &[BOB]), (&[CAROL], &[CAROL]), (&[], &[])] {
            let l = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            v.push(GOp::Admins { by: st(OWNER), add: l(a), remove: l(r) });
        }
        if s.owner == OWNER {
            v.push(GOp::Owner { to: st(ALICE) });
        }
        v
    }
    fn step(&self, s: &GS, op: &GOp, cov: &mut Cov) -> Result<Option<GS>, Viol> {
        let mut n = s.clone();
        let admin = |a: &str| a == s.owner || s.admins.contains(a);
        let mut e = Exp::default();
        let mut out: Vec<(&str, String, u128)> = vec![];
        let (by, msg, funds, ok) = match op {
            GOp::Grant { by, to, v, funds, bypass } => {
                let v = *v as u128;
                let paid = *bypass || (funds.len() == 1 && funds[0] == (v as u64, GAS.to_string()) && v > 0);
                let ok = admin(by) && paid && !s.chain.contains_key(to);
                if ok {
                    n.chain.insert(to.clone(), v);
                    for (a, d) in funds {
                        e.mv(by, &self.c, d, *a as u128);
                    }
                    out.push(("grant", to.clone(), v));
                }
                let mut m = json!({"grantee_contract": to, "amount": v.to_string()});
                if *bypass {
                    m["bypass_amount_check"] = json!(true);
                }
                (by.as_str(), json!({"grant": m}), funds.iter().map(|(a, d)| coin(*a as u128, d)).collect(), ok)
            }
            GOp::Revoke { by, to } => {
                let known = s.chain.contains_key(to);
                let ok = admin(by) && known;
                if ok {
                    n.chain.remove(to);
                    out.push(("revoke", to.clone(), 0));
                }
                if admin(by) && !known {
                    // the chain refuses to revoke what was never granted, whether or not the contract does so first
                    let r = n.w.exec_json(by, &self.c, json!({"revoke": {"grantee_contract": to}}), &[]);
                    cov.hit("revoke-of-nothing");
                    if let Ok(t) = r {
                        vensure!(chain_msgs(&t, &self.c)? == vec![("revoke", to.clone(), 0)], "revoke", "{op:?} sent {:?}", t.out);
                    }
                    return Ok(None);
                }
                (by.as_str(), json!({"revoke": {"grantee_contract": to}}), vec![], ok)
            }
            GOp::Transfer { by, v, to } => {
                let v = *v as u128;
                let ok = admin(by) && v > 0 && s.w.bal(&self.c, GAS) >= v;
                if ok {
                    e.mv(&self.c, to.as_deref().unwrap_or(by), GAS, v);
                }
                (by.as_str(), json!({"transfer_coins": {"amount": v.to_string(), "receiver": to}}), vec![], ok)
            }
            GOp::Admins { by, add, remove } => {
                let mut a = s.admins.clone();
                let fresh = add.iter().all(|x| a.insert(x.clone()));
                for x in remove {
                    a.remove(x);
                }
                let ok = *by == s.owner && fresh && a.len() <= 2;
                if ok {
                    n.admins = a;
                }
                (by.as_str(), json!({"update_admins": {"add": add, "remove": remove}}), vec![], ok)
            }
            GOp::Owner { to } => {
                n.w.exec_json(&s.owner, &self.c, json!({"propose_new_owner": {"owner": to, "expires_in": 1000}}), &[]).map_err(|e| e)?;
                n.w.exec_json(to, &self.c, json!({"claim_ownership": {}}), &[]).map_err(|e| e)?;
                n.owner = to.clone();
                cov.hit("new-owner");
                return Ok(Some(n));
            }
        };
        let before = balances(&s.w);
        let r = n.w.exec_json(by, &self.c, msg, &funds);
        let k = kind(op);
        cov.hit(&format!("{k}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        vensure!(r.is_ok() == ok, k, "{op:?} with owner {}, admins {:?}, grants {:?}: {:?}", s.owner, s.admins, s.chain, r.err());
        let Ok(t) = r else { return Ok(None) };
        let d = diff(&before, &balances(&n.w));
        vensure!(d == e.0, "funds", "{op:?} moved {d:?} instead of {:?}", e.0);
        let got = chain_msgs(&t, &self.c)?;
        vensure!(got == out, "message", "{op:?} sent {got:?} instead of {out:?}");
        Ok(Some(n))
    }
    fn full(&self, s: &GS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.u128(self.fp(s));
        h.done()
    }
    fn fp(&self, s: &GS) -> u128 {
        let mut h = H::new();
        // the contract stores its admins in no particular order
        h.str(&s.owner);
        h.str(&format!("{:?}{:?}{:?}", s.admins, s.chain, balances(&s.w)));
        h.done()
    }
    fn check(&self, s: &GS, cov: &mut Cov) -> Result<(), Viol> {
        let q = |m: Value| s.w.q(&self.c, m).map_err(|e| Viol { key: "query".into(), msg: e });
        let c = q(json!({"config": {}}))?;
        let a: BTreeSet<String> = c["admins"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        vensure!(c["owner"] == json!(s.owner) && a == s.admins && c["admins"].as_array().unwrap().len() == a.len(), "config", "{c} with owner {} and admins {:?}", s.owner, s.admins);
        let want: BTreeMap<String, Value> = s.chain.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect();
        pages(&s.w, &self.c, "grants_list", "grantee_contract", "amount", &want, &[None, Some(G1.into()), Some(G2.into())], &[None, Some(1), Some(5)], 50)?;
        for g in [G1, G2, ALICE] {
            let r = u(&q(json!({"grant_for": {"grantee_contract": g}}))?["amount"]);
            vensure!(r == s.chain.get(g).copied().unwrap_or(0), "grant", "{g} is shown {r} with {:?}", s.chain);
        }
        cov.hit("records");
        Ok(())
    }
}
/// the fee allowance messages sent to the chain
fn chain_msgs(t: &Tx, c: &str) -> Result<Vec<(&'static str, String, u128)>, Viol> {
    let mut v = vec![];
    for (url, b) in &t.out {
        let m = pb_decode(b);
        vensure!(pb_str(&m, 1) == c, "message", "{url} on behalf of {}", pb_str(&m, 1));
        match url.as_str() {
            "/cosmos.feegrant.v1beta1.MsgGrantAllowance" => {
                let any = pb_decode(&m.iter().find(|f| f.0 == 3).unwrap().1);
                vensure!(pb_str(&any, 1) == "/cosmos.feegrant.v1beta1.BasicAllowance", "message", "an allowance of type {}", pb_str(&any, 1));
                let al = pb_decode(&any.iter().find(|f| f.0 == 2).unwrap().1);
                let lim: Vec<_> = al.iter().filter(|f| f.0 == 1).map(|f| pb_decode(&f.1)).collect();
                vensure!(lim.len() == 1 && pb_str(&lim[0], 1) == GAS && al.iter().all(|f| f.0 != 2), "message", "allowance {al:?}");
                v.push(("grant", pb_str(&m, 2), pb_str(&lim[0], 2).parse().unwrap()));
            }
            "/cosmos.feegrant.v1beta1.MsgRevokeAllowance" => v.push(("revoke", pb_str(&m, 2), 0)),
            _ => return viol("message", format!("unexpected chain message {url}")),
        }
    }
    Ok(v)
}
fn grants_grid() -> Box<dyn Runner> {
    grid("I03:pages", vec![1usize, 2, 50, 51, 75], |n: &usize, cov: &mut Cov| {
        let mut w = World::new();
        w.fund(OWNER, GAS, 1 << 40);
        let c = new_fee_granter(&mut w);
        let mut want = BTreeMap::new();
        for i in 0..*n {
            let g = format!("wasm1g{}x{i}", i * 7919 % 31);
            w.exec_json(OWNER, &c, json!({"grant": {"grantee_contract": g, "amount": (i + 1).to_string()}}), &[coin(i as u128 + 1, GAS)]).map_err(|e| e)?;
            want.insert(g, json!((i + 1).to_string()));
        }
        let mut cur: Vec<Option<String>> = vec![None];
        cur.extend(want.keys().cloned().map(Some));
        cov.add("cursors", cur.len() as u64);
        pages(&w, &c, "grants_list", "grantee_contract", "amount", &want, &cur, &[None, Some(1), Some(7), Some(50), Some(51), Some(200)], 50)
    })
}

// ---------------------------------------------------------------- I05
#[derive(Clone, Debug, Serialize, Deserialize)]
enum WOp {
    Execute { by: String, what: u8 },
    Freeze { by: String },
    Update { by: String, admins: Vec<String> },
}
#[derive(Clone)]
struct WS {
    w: World,
    admins: Vec<String>,
    mutable: bool,
}
struct WM {
    name: String,
    w0: World,
    c: String,
    sink: String,
    admins: Vec<String>,
    mutable: bool,
}
impl WM {
    fn new(name: &str, admins: &[&str], mutable: bool) -> WM {
        let mut w = World::new();
        let sink = w.init(OWNER, SINK, &json!({}), &[]).unwrap();
        let c = w.init(OWNER, WHITELIST, &json!({"admins": admins, "mutable": mutable}), &[]).unwrap();
        w.fund(&c, "ucoin", 10);
        for a in [ALICE, BOB, CAROL] {
            w.fund(a, "ucoin", 10);
        }
        WM { name: name.into(), w0: w, c, sink, admins: admins.iter().map(|x| x.to_string()).collect(), mutable }
    }
    /// (messages, calls made, coins moved to carol, works)
    fn batch(&self, s: &WS, what: u8) -> (Vec<Value>, Vec<(String, Value)>, u128, bool) {
        let call = |x: u64, f: u64| json!({"wasm": {"execute": {"contract_addr": self.sink, "msg": b64(&json!({"x": x})), "funds": if f > 0 { json!([{"denom": "ucoin", "amount": f.to_string()}]) } else { json!([]) }}}});
        let send = |v: u64| json!({"bank": {"send": {"to_address": CAROL, "amount": [{"denom": "ucoin", "amount": v.to_string()}]}}});
        let me = json!({"wasm": {"execute": {"contract_addr": self.c, "msg": b64(&json!({"freeze": {}})), "funds": []}}});
        let left = s.w.bal(&self.c, "ucoin");
        let sk = |x: u64| (self.sink.clone(), json!({"x": x}));
        match what {
            0 => (vec![], vec![], 0, true),
            1 => (vec![call(1, 0)], vec![sk(1)], 0, true),
            2 => (vec![call(2, 0), send(3), call(1, 0), call(1, 0)], vec![sk(2), sk(1), sk(1)], 3, left >= 3),
            3 => (vec![send(3), call(1, 0), send(1000)], vec![], 0, false),
            // the proxy is not its own admin, unless listed
            _ => (vec![me], vec![], 0, false),
        }
    }
}
impl Model for WM {
    type S = WS;
    type Op = WOp;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> WS {
        WS { w: self.w0.clone(), admins: self.admins.clone(), mutable: self.mutable }
    }
    fn ops(&self, _: &WS, _: usize) -> Vec<WOp> {
        let mut v = vec![];
        for by in [ALICE, BOB, CAROL] {
            let by = by.to_string();
            for what in 0..5 {
                v.push(WOp::Execute { by: by.clone(), what });
            }
            v.push(WOp::Freeze { by: by.clone() });
            for l in [&[][..], &[ALICE], &[BOB], &[BOB, ALICE], &[CAROL, CAROL], &[ALICE, BOB, CAROL]] {
                v.push(WOp::Update { by: by.clone(), admins: l.iter().map(|x| x.to_string()).collect() });
            }
        }
        v
    }
    fn step(&self, s: &WS, op: &WOp, cov: &mut Cov) -> Result<Option<WS>, Viol> {
        let mut n = s.clone();
        let before = balances(&s.w);
        let k = kind(op);
        let mut e = Exp::default();
        let mut calls = vec![];
        let (by, msg, ok) = match op {
            WOp::Execute { by, what } => {
                let (msgs, c, v, works) = self.batch(s, *what);
                let ok = s.admins.contains(by) && works;
                if ok {
                    calls = c;
                    if v > 0 {
                        e.mv(&self.c, CAROL, "ucoin", v);
                    }
                }
                (by, json!({"execute": {"msgs": msgs}}), ok)
            }
            WOp::Freeze { by } => {
                let ok = s.mutable && s.admins.contains(by);
                if ok {
                    n.mutable = false;
                }
                (by, json!({"freeze": {}}), ok)
            }
            WOp::Update { by, admins } => {
                let ok = s.mutable && s.admins.contains(by);
                if ok {
                    n.admins = admins.clone();
                }
                (by, json!({"update_admins": {"admins": admins}}), ok)
            }
        };
        let r = n.w.exec_json(by, &self.c, msg, &[]);
        cov.hit(&format!("{k}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        vensure!(r.is_ok() == ok, k, "{op:?} with admins {:?}, mutable {}: {:?}", s.admins, s.mutable, r.err());
        let Ok(t) = r else { return Ok(None) };
        let got: Vec<(String, Value)> = t.calls.iter().skip(1).map(|c| (c.1.clone(), serde_json::from_str(&c.2).unwrap())).collect();
        vensure!(got == calls && t.calls.iter().skip(1).all(|c| c.0 == self.c) && t.out.is_empty(), "forwarded", "{op:?} called {got:?} instead of {calls:?}");
        let d = diff(&before, &balances(&n.w));
        vensure!(d == e.0, "funds", "{op:?} moved {d:?} instead of {:?}", e.0);
        Ok(Some(n))
    }
    fn fp(&self, s: &WS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{:?}{}", s.admins, s.mutable));
        h.done()
    }
    fn check(&self, s: &WS, cov: &mut Cov) -> Result<(), Viol> {
        let q = |m: Value| s.w.q(&self.c, m).map_err(|e| Viol { key: "query".into(), msg: e });
        let a = q(json!({"admin_list": {}}))?;
        let set = |v: &Vec<String>| v.iter().cloned().collect::<BTreeSet<_>>();
        let got: Vec<String> = a["admins"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        vensure!(set(&got) == set(&s.admins) && a["mutable"] == json!(s.mutable), "admins", "{a} instead of {:?}, {}", s.admins, s.mutable);
        for who in [ALICE, BOB, CAROL, OWNER, &self.c] {
            for what in [1, 2] {
                let m = &self.batch(s, what).0[0];
                let r = q(json!({"can_execute": {"sender": who, "msg": m}}))?;
                vensure!(r["can_execute"] == json!(s.admins.contains(&who.to_string())), "can-execute", "{who}: {r} with {:?}", s.admins);
            }
        }
        cov.hit("admin-list");
        Ok(())
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "I02",
            scenarios: |_| {
                let mut w = World::new();
                let c = new_registry(&mut w, &[]);
                for a in [OWNER, ALICE] {
                    for d in DEN.iter().chain(&["uother"]) {
                        w.fund(a, d, 20);
                    }
                }
                vec![bounded(RM { w0: w, c }, 12), registry_grid()]
            },
            assumptions: &["the bank module behaves as an ordinary cosmos bank"],
        },
        Prop {
            id: "I03",
            scenarios: |t| {
                let mut w = World::new();
                for a in [OWNER, FGADMIN, ALICE, BOB] {
                    for d in [GAS, "uother"] {
                        w.fund(a, d, 100);
                    }
                }
                let c = new_fee_granter(&mut w);
                vec![bounded(GM { w0: w, c }, if t { 9 } else { 6 }), grants_grid()]
            },
            assumptions: &["the chain refuses a second allowance for a grantee and revoking what was not granted"],
        },
        Prop {
            id: "I05",
            scenarios: |_| {
                let d = 12;
                vec![
                    bounded(WM::new("I05:mutable", &[ALICE, BOB], true), d),
                    bounded(WM::new("I05:single", &[BOB], true), d),
                    bounded(WM::new("I05:frozen", &[ALICE, BOB], false), d),
                    bounded(WM::new("I05:empty", &[], true), d),
                ]
            },
            assumptions: &[],
        },
    ]
}
