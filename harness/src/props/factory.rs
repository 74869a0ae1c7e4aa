//! B01, B02: the factory.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const ADMIN: &str = "wasm1newowner";

// ---------------------------------------------------------------- B01
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// assets by number; `bad` leaves the pool's own parameters out so that its creation fails
    Create { who: String, ty: String, a: Vec<u8>, bad: bool },
    Drop { who: String, a: Vec<u8> },
    /// flags of a pair type
    Flags { who: String, ty: String, disabled: bool, perm: bool },
}
#[derive(Clone, Serialize)]
struct Pair {
    addr: String,
    ty: String,
}
#[derive(Clone)]
struct S {
    w: World,
    pairs: BTreeMap<Vec<u8>, Pair>,
    flags: BTreeMap<String, (bool, bool)>,
    last: Vec<u8>,
    /// every pair ever created
    n: usize,
}
struct M {
    name: String,
    w0: World,
    f: String,
    toks: Vec<Tok>,
    ops: Vec<Op>,
    gen: bool,
}
fn kind(ty: &str) -> Kind {
    match ty {
        "xyk" => Kind::Xyk,
        "stable" => Kind::Stable,
        "transmuter" => Kind::Trans,
        "concentrated" => Kind::Pcl,
        _ => Kind::Tax,
    }
}
fn config(ty: &str, disabled: bool, perm: bool) -> Value {
    let mut c = pair_config(kind(ty), if ty == "transmuter" { 0 } else { 30 }, 3333);
    c["is_disabled"] = json!(disabled);
    c["permissioned"] = json!(perm);
    c
}
fn sorted(a: &[u8]) -> Vec<u8> {
    let mut a = a.to_vec();
    a.sort();
    a
}
fn perms(a: &[u8]) -> Vec<Vec<u8>> {
    if a.len() < 2 {
        return vec![a.to_vec()];
    }
    let mut v = vec![];
    for i in 0..a.len() {
        let mut r = a.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x);
            v.push(p);
        }
    }
    v
}
impl M {
    fn infos(&self, a: &[u8]) -> Vec<Value> {
        a.iter().map(|i| self.toks[*i as usize].info()).collect()
    }
    fn sets(&self) -> Vec<Vec<u8>> {
        let n = self.toks.len() as u8;
        let mut v = vec![];
        for m in 0u8..1 << n {
            let s: Vec<u8> = (0..n).filter(|i| m & (1 << i) != 0).collect();
            if (2..=3).contains(&s.len()) {
                v.push(s);
            }
        }
        v
    }
}
fn pages(w: &World, f: &str, limit: Option<u32>) -> Result<Vec<Value>, Viol> {
    let mut all: Vec<Value> = vec![];
    let mut after = Value::Null;
    loop {
        let r = w.q(f, json!({"pairs": {"start_after": after, "limit": limit}})).map_err(|e| Viol { key: "listing".into(), msg: e })?;
        let p = r["pairs"].as_array().unwrap().clone();
        vensure!(p.len() <= limit.unwrap_or(10).min(30) as usize, "listing", "a page of {} for limit {limit:?}", p.len());
        if p.is_empty() {
            return Ok(all);
        }
        after = p.last().unwrap()["asset_infos"].clone();
        all.extend(p);
        vensure!(all.len() <= 200, "listing", "the listing does not end");
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        let flags = ["xyk", "stable", "transmuter", "astroport-pair-xyk-sale-tax"].iter().map(|t| (t.to_string(), (false, false))).collect();
        S { w: self.w0.clone(), pairs: BTreeMap::new(), flags, last: vec![], n: 0 }
    }
    fn ops(&self, _: &S, _: usize) -> Vec<Op> {
        self.ops.clone()
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        match op {
            Op::Create { who, ty, a, bad } => {
                let set = sorted(a);
                let mut uniq = set.clone();
                uniq.dedup();
                let fl = s.flags.get(ty);
                let arity = if ty == "transmuter" { (2..=5).contains(&a.len()) && a.iter().all(|i| self.toks[*i as usize].native()) } else { a.len() == 2 };
                let ok = uniq.len() == a.len() && arity && !*bad && !s.pairs.contains_key(&set) && fl.is_some_and(|f| !f.0 && (!f.1 || who == OWNER));
                let params = match (ty.as_str(), bad) {
                    ("stable", false) => json!(b64(&json!({"amp": 100}))),
                    ("astroport-pair-xyk-sale-tax", false) => json!(b64(&json!({"tax_configs": {}, "tax_config_admin": TAXADM, "track_asset_balances": false}))),
                    ("xyk", true) => json!(b64(&json!({"track_asset_balances": 3}))),
                    _ => Value::Null,
                };
                let t = if ty == "nonesuch" { json!({"custom": "nonesuch"}) } else { kind(ty).pair_type() };
                let r = n.w.exec_json(who, &self.f, json!({"create_pair": {"pair_type": t, "asset_infos": self.infos(a), "init_params": params}}), &[]);
                cov.hit(if r.is_ok() { "created" } else { "creation-refused" });
                let r = match r {
                    Ok(t) => t,
                    Err(e) => {
                        vensure!(!ok, "create", "creating a {ty} pair of {a:?} by {who} was refused: {e}");
                        return Ok(None);
                    }
                };
                vensure!(ok, "create", "creating a {ty} pair of {a:?} by {who} was accepted with {:?} registered and flags {fl:?}", s.pairs.keys());
                let new: Vec<&String> = r.instantiated.iter().filter(|x| n.w.contracts[x.as_str()].code == kind(ty).code()).collect();
                vensure!(new.len() == 1, "create", "creation made {} pools", new.len());
                n.pairs.insert(set.clone(), Pair { addr: new[0].clone(), ty: ty.clone() });
                n.last = set;
                n.n += 1;
            }
            Op::Drop { who, a } => {
                let set = sorted(a);
                let r = n.w.exec_json(who, &self.f, json!({"deregister": {"asset_infos": self.infos(a)}}), &[]);
                let ok = who == OWNER && s.pairs.contains_key(&set);
                cov.hit(if r.is_ok() { "deregistered" } else { "deregistration-refused" });
                vensure!(r.is_ok() == ok, "deregister", "deregistering {a:?} by {who}: {r:?}");
                let Ok(r) = r else { return Ok(None) };
                if self.gen {
                    let lp = n.w.q(&s.pairs[&set].addr, json!({"pair": {}})).unwrap()["liquidity_token"].as_str().unwrap().to_string();
                    vensure!(r.calls.iter().any(|c| c.1.contains("deactivate_pool") || c.2.contains("deactivate_pool")), "deregister", "the staking contract was not told about {lp}: {:?}", r.calls);
                }
                n.pairs.remove(&set);
            }
            Op::Flags { who, ty, disabled, perm } => {
                let r = n.w.exec_json(who, &self.f, json!({"update_pair_config": {"config": config(ty, *disabled, *perm)}}), &[]);
                vensure!(r.is_ok() == (who == OWNER), "flags", "flags by {who}: {r:?}");
                cov.hit("flags");
                if r.is_err() {
                    return Ok(None);
                }
                n.flags.insert(ty.clone(), (*disabled, *perm));
            }
        }
        Ok(Some(n))
    }
    fn full(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.u128(self.fp(s));
        h.done()
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        // pool addresses only tell how many pools there have been
        for (k, p) in &s.pairs {
            h.str(&format!("{k:?}{}", p.ty));
        }
        h.str(&format!("{:?}{:?}{}", s.flags, s.last, s.n));
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        for set in self.sets() {
            for a in perms(&set) {
                let r = s.w.q(&self.f, json!({"pair": {"asset_infos": self.infos(&a)}}));
                match (s.pairs.get(&set), r) {
                    (Some(p), Ok(v)) => {
                        vensure!(v["contract_addr"] == json!(p.addr), "lookup", "the pair of {a:?} is {} instead of {}", v["contract_addr"], p.addr);
                        let mut x: Vec<String> = v["asset_infos"].as_array().unwrap().iter().map(|v| v.to_string()).collect();
                        let mut y: Vec<String> = self.infos(&a).iter().map(|v| v.to_string()).collect();
                        x.sort();
                        y.sort();
                        vensure!(x == y && v["pair_type"] == kind(&p.ty).pair_type(), "lookup", "the pair of {a:?} is {v}");
                        cov.hit("found");
                    }
                    (None, Err(_)) => cov.hit("absent"),
                    (x, y) => return viol("lookup", format!("the pair of {a:?}: registered {}, lookup {y:?}", x.is_some())),
                }
            }
        }
        let mut want: Vec<&String> = s.pairs.values().map(|p| &p.addr).collect();
        want.sort();
        for l in [Some(1), Some(2), Some(3), None, Some(100)] {
            let all = pages(&s.w, &self.f, l)?;
            let mut got: Vec<String> = all.iter().map(|v| v["contract_addr"].as_str().unwrap().to_string()).collect();
            got.sort();
            vensure!(got.iter().collect::<Vec<_>>() == want, "listing", "pages of {l:?} list {got:?} instead of {want:?}");
        }
        Ok(())
    }
}
fn model(name: &str, cw20: &[bool], ops: Vec<Op>, gen: bool) -> M {
    let mut w = World::new();
    let names = ["uaaa", "ubbb", "uccc", "uddd"];
    let nat: Vec<(String, u8)> = (0..cw20.len()).filter(|i| !cw20[*i]).map(|i| (names[i].to_string(), 6)).collect();
    let reg = new_registry(&mut w, &nat);
    let toks: Vec<Tok> = (0..cw20.len()).map(|i| if cw20[i] { Tok::T(new_cw20(&mut w, names[i], 6, &[])) } else { Tok::N(names[i].into()) }).collect();
    let sink = w.init(OWNER, SINK, &json!({}), &[]).unwrap();
    let f = new_factory(&mut w, &reg, ["xyk", "stable", "transmuter", "astroport-pair-xyk-sale-tax"].iter().map(|t| config(t, false, false)).collect(), Some(FEE), gen.then_some(sink.as_str()));
    M { name: name.into(), w0: w, f, toks, ops, gen }
}
fn create(who: &str, ty: &str, a: &[u8]) -> Op {
    Op::Create { who: who.into(), ty: ty.into(), a: a.to_vec(), bad: false }
}
fn drop_(who: &str, a: &[u8]) -> Op {
    Op::Drop { who: who.into(), a: a.to_vec() }
}
fn flags(who: &str, ty: &str, disabled: bool, perm: bool) -> Op {
    Op::Flags { who: who.into(), ty: ty.into(), disabled, perm }
}
fn base_ops() -> Vec<Op> {
    let mut v = vec![
        create(ALICE, "xyk", &[0, 1]),
        create(BOB, "xyk", &[1, 0]),
        create(ALICE, "stable", &[0, 1]),
        create(ALICE, "xyk", &[1, 2]),
        create(ALICE, "stable", &[2, 0]),
        create(OWNER, "xyk", &[2, 1]),
        create(ALICE, "transmuter", &[0, 1, 2]),
        create(ALICE, "transmuter", &[2, 0, 1]),
        create(ALICE, "transmuter", &[1, 0]),
        create(ALICE, "xyk", &[0, 1, 2]),
        create(ALICE, "xyk", &[1, 1]),
        create(ALICE, "transmuter", &[0, 1, 0]),
        create(ALICE, "transmuter", &[0]),
        create(ALICE, "xyk", &[0]),
        create(ALICE, "nonesuch", &[0, 1]),
        drop_(OWNER, &[0, 1]),
        drop_(OWNER, &[1, 0]),
        drop_(OWNER, &[1, 2, 0]),
        drop_(OWNER, &[2, 1]),
        drop_(ALICE, &[0, 1]),
        flags(OWNER, "xyk", true, false),
        flags(OWNER, "xyk", false, true),
        flags(OWNER, "xyk", true, true),
        flags(OWNER, "xyk", false, false),
        flags(ALICE, "xyk", false, false),
    ];
    for ty in ["xyk", "stable"] {
        v.push(Op::Create { who: ALICE.into(), ty: ty.into(), a: vec![0, 1], bad: true });
    }
    v
}
/// many pairs: page sizes around the limits
fn many(n: &u32, cov: &mut Cov) -> Result<(), Viol> {
    let mut w = World::new();
    let nat: Vec<(String, u8)> = (0..=*n).map(|i| (format!("ucoin{i:03}"), 6)).collect();
    let reg = new_registry(&mut w, &nat);
    let f = new_factory(&mut w, &reg, vec![config("xyk", false, false)], None, None);
    let mut want = vec![];
    for i in 0..*n {
        // different orders of the same shape
        let (a, b) = if i % 2 == 0 { (i, i + 1) } else { (i + 1, i) };
        let infos = json!([{"native_token": {"denom": nat[a as usize].0}}, {"native_token": {"denom": nat[b as usize].0}}]);
        let t = w.exec_json(ALICE, &f, json!({"create_pair": {"pair_type": {"xyk": {}}, "asset_infos": infos}}), &[]).map_err(|e| Viol { key: "create".into(), msg: e })?;
        want.push(t.instantiated.iter().find(|x| w.contracts[x.as_str()].code == PAIR).unwrap().clone());
    }
    want.sort();
    for l in [Some(1), Some(7), None, Some(10), Some(29), Some(30), Some(31), Some(1000)] {
        let mut got: Vec<String> = pages(&w, &f, l)?.iter().map(|v| v["contract_addr"].as_str().unwrap().to_string()).collect();
        got.sort();
        vensure!(got == want, "listing", "pages of {l:?} list {} of {n} pairs", got.len());
        let one = w.q(&f, json!({"pairs": {"limit": l}})).unwrap()["pairs"].as_array().unwrap().len();
        vensure!(one == (l.unwrap_or(10).min(30)).min(*n) as usize, "listing", "the first page for {l:?} of {n} has {one}");
        cov.hit("paged");
    }
    Ok(())
}
/// different asset sets whose names run together to the same text
fn collide(c: &(Vec<String>, Vec<String>), cov: &mut Cov) -> Result<(), Viol> {
    let mut w = World::new();
    let mut nat: Vec<(String, u8)> = c.0.iter().chain(&c.1).map(|d| (d.clone(), 6)).collect();
    nat.sort();
    nat.dedup();
    let reg = new_registry(&mut w, &nat);
    let f = new_factory(&mut w, &reg, vec![config("xyk", false, false), config("transmuter", false, false)], None, None);
    let infos = |d: &[String]| json!(d.iter().map(|d| json!({"native_token": {"denom": d}})).collect::<Vec<_>>());
    let ty = |d: &[String]| if d.len() == 2 { json!({"xyk": {}}) } else { Kind::Trans.pair_type() };
    let mut mk = |d: &[String]| w.exec_json(ALICE, &f, json!({"create_pair": {"pair_type": ty(d), "asset_infos": infos(d)}}), &[]);
    mk(&c.0).map_err(|e| Viol { key: "create".into(), msg: e })?;
    let r = mk(&c.1);
    cov.hit("similar-names");
    vensure!(r.is_ok(), "pair-key-collision", "with a pair of {:?} registered, a pair of {:?} is refused: {r:?}", c.0, c.1);
    let a = w.q(&f, json!({"pair": {"asset_infos": infos(&c.0)}})).unwrap();
    let b = w.q(&f, json!({"pair": {"asset_infos": infos(&c.1)}})).unwrap();
    vensure!(a["contract_addr"] != b["contract_addr"], "lookup", "{:?} and {:?} give the same pair", c.0, c.1);
    vensure!(pages(&w, &f, Some(1))?.len() == 2, "listing", "a pair is missing");
    Ok(())
}

// ---------------------------------------------------------------- B02
#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Set { who: String, m: Value },
    Cfg { who: String, ty: String, code: u64, fee: u16, maker: u16, off: bool, gen_off: bool, perm: bool },
    Tracker { who: String, code: u64, addr: Option<String> },
    Propose { who: String },
    Claim { who: String },
}
#[derive(Clone, Serialize)]
struct CRef {
    c: Value,
    types: BTreeMap<String, Value>,
    tracker: Value,
    owner: String,
    proposed: bool,
}
struct CM {
    name: String,
    w0: World,
    f: String,
    r0: CRef,
    ops: Vec<COp>,
}
type CS = (World, CRef);
impl Model for CM {
    type S = CS;
    type Op = COp;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> CS {
        (self.w0.clone(), self.r0.clone())
    }
    fn ops(&self, _: &CS, _: usize) -> Vec<COp> {
        self.ops.clone()
    }
    fn step(&self, s: &CS, op: &COp, cov: &mut Cov) -> Result<Option<CS>, Viol> {
        let (mut w, mut r) = s.clone();
        let owner = |x: &str| if x == "owner" { s.1.owner.clone() } else { x.to_string() };
        let (res, ok) = match op {
            COp::Set { who, m } => {
                let who = owner(who);
                for (k, v) in m.as_object().unwrap() {
                    r.c[k] = v.clone();
                }
                let good = m.as_object().unwrap().values().all(|v| v.as_str().is_none_or(|x| x.chars().all(|c| !c.is_uppercase())));
                (w.exec_json(&who, &self.f, json!({"update_config": m}), &[]), who == s.1.owner && good)
            }
            COp::Cfg { who, ty, code, fee, maker, off, gen_off, perm } => {
                let who = owner(who);
                let t = match ty.as_str() {
                    "xyk" | "stable" => json!({ty: {}}),
                    t => json!({"custom": t}),
                };
                let c = json!({"code_id": code, "pair_type": t, "total_fee_bps": fee, "maker_fee_bps": maker, "is_disabled": off, "is_generator_disabled": gen_off, "permissioned": perm});
                r.types.insert(ty.clone(), c.clone());
                (w.exec_json(&who, &self.f, json!({"update_pair_config": {"config": c}}), &[]), who == s.1.owner && *fee <= 10_000 && *maker <= 10_000)
            }
            COp::Tracker { who, code, addr } => {
                let who = owner(who);
                let ok = who == s.1.owner && (!r.tracker.is_null() || addr.is_some());
                if r.tracker.is_null() {
                    r.tracker = json!({"code_id": code, "token_factory_addr": addr});
                } else {
                    r.tracker["code_id"] = json!(code);
                }
                (w.exec_json(&who, &self.f, json!({"update_tracker_config": {"tracker_code_id": code, "token_factory_addr": addr}}), &[]), ok)
            }
            COp::Propose { who } => {
                let who = owner(who);
                r.proposed = true;
                (w.exec_json(&who, &self.f, json!({"propose_new_owner": {"owner": ADMIN, "expires_in": 1000}}), &[]), who == s.1.owner && who != ADMIN)
            }
            COp::Claim { who } => {
                let ok = r.proposed && who == ADMIN;
                r.proposed = false;
                r.owner = who.clone();
                (w.exec_json(who, &self.f, json!({"claim_ownership": {}}), &[]), ok)
            }
        };
        cov.hit(if res.is_ok() { "accepted" } else { "refused" });
        vensure!(res.is_ok() == ok, "settings", "{op:?} with owner {}: {res:?}", s.1.owner);
        Ok(res.is_ok().then_some((w, r)))
    }
    fn fp(&self, s: &CS) -> u128 {
        let mut h = H::new();
        s.0.fp(&mut h, false);
        h.str(&serde_json::to_string(&s.1).unwrap());
        h.done()
    }
    fn check(&self, s: &CS, _: &mut Cov) -> Result<(), Viol> {
        report(&s.0, &self.f, &s.1)
    }
}
fn report(w: &World, f: &str, r: &CRef) -> Result<(), Viol> {
    let mut c = w.q(f, json!({"config": {}})).map_err(|e| Viol { key: "report".into(), msg: e })?;
    let key = |v: &Value| v["pair_type"].to_string();
    let mut types: Vec<Value> = c["pair_configs"].as_array().unwrap().clone();
    let mut want: Vec<Value> = r.types.values().cloned().collect();
    types.sort_by_key(key);
    want.sort_by_key(key);
    vensure!(types == want, "report", "pair types {types:?} instead of {want:?}");
    c.as_object_mut().unwrap().remove("pair_configs");
    let mut e = r.c.clone();
    e["owner"] = json!(r.owner);
    vensure!(c == e, "report", "settings {c} instead of {e}");
    let mut black: Vec<String> = w.q(f, json!({"blacklisted_pair_types": {}})).unwrap().as_array().unwrap().iter().map(|v| v.to_string()).collect();
    let mut eb: Vec<String> = want.iter().filter(|c| c["is_disabled"] == json!(true) || c["is_generator_disabled"] == json!(true)).map(|c| c["pair_type"].to_string()).collect();
    black.sort();
    eb.sort();
    vensure!(black == eb, "report", "blacklisted {black:?} instead of {eb:?}");
    for t in ["xyk", "stable", "transmuter", "nova"] {
        let p = if t == "xyk" || t == "stable" { json!({t: {}}) } else { json!({"custom": t}) };
        let i = w.q(f, json!({"fee_info": {"pair_type": p}}));
        match (r.types.get(t), i) {
            (Some(c), Ok(i)) => {
                let e = json!({"fee_address": r.c["fee_address"], "total_fee_bps": c["total_fee_bps"], "maker_fee_bps": c["maker_fee_bps"]});
                vensure!(i == e, "report", "fees of {t}: {i} instead of {e}");
            }
            (None, Err(_)) => {}
            (a, b) => return viol("report", format!("fees of {t}: {b:?} instead of {a:?}")),
        }
    }
    let t = w.q(f, json!({"tracker_config": {}})).unwrap_or(Value::Null);
    vensure!(t == r.tracker, "report", "tracker settings {t} instead of {}", r.tracker);
    Ok(())
}
fn cref(types: &[(&str, u16, u16)], fee: Option<&str>, tracker: bool, reg: &str) -> CRef {
    let mut t = BTreeMap::new();
    for (ty, fee, maker) in types {
        let mut c = pair_config(kind(ty), *fee, *maker);
        c["permissioned"] = json!(false);
        t.insert(ty.to_string(), c);
    }
    CRef {
        c: json!({"token_code_id": CW20, "fee_address": fee, "generator_address": null, "whitelist_code_id": WHITELIST, "coin_registry_address": reg}),
        types: t,
        tracker: if tracker { json!({"code_id": TRACKER, "token_factory_addr": TF_MODULE}) } else { Value::Null },
        owner: OWNER.into(),
        proposed: false,
    }
}
fn init(w: &mut World, r: &CRef, dup: bool) -> Result<String, String> {
    let mut l: Vec<Value> = r.types.values().cloned().collect();
    if dup {
        l.push(l[0].clone());
    }
    w.init(
        OWNER,
        FACTORY,
        &json!({"pair_configs": l, "token_code_id": r.c["token_code_id"], "fee_address": r.c["fee_address"], "generator_address": r.c["generator_address"],
            "owner": r.owner, "whitelist_code_id": r.c["whitelist_code_id"], "coin_registry_address": r.c["coin_registry_address"], "tracker_config": r.tracker}),
        &[],
    )
}
fn cops() -> Vec<COp> {
    let set = |who: &str, m: Value| COp::Set { who: who.into(), m };
    let cfg = |who: &str, ty: &str, code: u64, fee: u16, maker: u16, f: [bool; 3]| COp::Cfg { who: who.into(), ty: ty.into(), code, fee, maker, off: f[0], gen_off: f[1], perm: f[2] };
    vec![
        set("owner", json!({"fee_address": FEE})),
        set("owner", json!({"fee_address": BOB, "token_code_id": 77})),
        set("owner", json!({"generator_address": CAROL})),
        set("owner", json!({"whitelist_code_id": 5, "coin_registry_address": ALICE})),
        set("owner", json!({"fee_address": "WASM1BAD", "token_code_id": 9})),
        set("owner", json!({"token_code_id": 8, "coin_registry_address": "Wasm1Bad"})),
        set("owner", json!({"generator_address": "wASM1BAD"})),
        set("owner", json!({})),
        set(BOB, json!({"fee_address": BOB})),
        set(ADMIN, json!({"token_code_id": 11})),
        set(OWNER, json!({"token_code_id": 12})),
        cfg("owner", "xyk", 2, 0, 10_000, [false, false, false]),
        cfg("owner", "xyk", 3, 10_000, 0, [true, false, false]),
        cfg("owner", "xyk", 3, 10_001, 0, [true, false, false]),
        cfg("owner", "xyk", 3, 30, 10_001, [false, false, false]),
        cfg("owner", "xyk", 3, 65_535, 65_535, [false, false, false]),
        cfg("owner", "stable", 9, 5, 5_000, [false, true, false]),
        cfg("owner", "stable", 9, 5, 5_000, [true, true, true]),
        cfg("owner", "nova", 40, 100, 100, [false, false, true]),
        cfg("owner", "nova", 41, 99, 101, [false, true, false]),
        cfg(BOB, "nova", 41, 1, 1, [false, false, false]),
        cfg(ADMIN, "xyk", 41, 1, 1, [false, false, false]),
        COp::Tracker { who: "owner".into(), code: 60, addr: Some(BOB.into()) },
        COp::Tracker { who: "owner".into(), code: 61, addr: None },
        COp::Tracker { who: BOB.into(), code: 62, addr: Some(BOB.into()) },
        COp::Propose { who: "owner".into() },
        COp::Claim { who: ADMIN.into() },
        COp::Claim { who: BOB.into() },
    ]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "B01",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![
                    bounded(model("natives", &[false, false, false], base_ops(), false), 5 + t as usize),
                    bounded(
                        model(
                            "cw20-and-staking",
                            &[true, false, true],
                            vec![
                                create(ALICE, "xyk", &[0, 1]),
                                create(ALICE, "xyk", &[2, 0]),
                                create(BOB, "stable", &[1, 0]),
                                create(BOB, "astroport-pair-xyk-sale-tax", &[1, 2]),
                                create(BOB, "astroport-pair-xyk-sale-tax", &[2, 1]),
                                create(BOB, "transmuter", &[1, 2]),
                                create(BOB, "xyk", &[2, 2]),
                                create(OWNER, "xyk", &[0, 0]),
                                drop_(OWNER, &[0, 1]),
                                drop_(OWNER, &[0, 2]),
                                drop_(OWNER, &[2, 1]),
                                drop_(BOB, &[1, 2]),
                                flags(OWNER, "stable", true, true),
                                flags(OWNER, "astroport-pair-xyk-sale-tax", false, true),
                            ],
                            true,
                        ),
                        6 + t as usize,
                    ),
                ];
                let ns: Vec<u32> = if t { (0..70).collect() } else { vec![0, 1, 9, 10, 11, 30, 31, 45] };
                v.push(grid("many", ns, many));
                let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<String>>();
                v.push(grid(
                    "similar-names",
                    vec![
                        (s(&["uaa", "aubb"]), s(&["uaaa", "ubb"])),
                        (s(&["uax", "uayuaz"]), s(&["uaxuay", "uaz"])),
                        (s(&["uax", "uay", "uaz"]), s(&["uaxuay", "uaz"])),
                        (s(&["uaaa", "ubbb"]), s(&["uaaa", "ubbbb"])),
                        (s(&["uaaa", "ubbb"]), s(&["uaaaa", "ubbb"])),
                        (s(&["uaaa", "ubbb", "uccc"]), s(&["uaaa", "ubbb"])),
                        (s(&["uaaa", "ubbb"]), s(&["uaaa", "ubbb", "uccc"])),
                    ],
                    collide,
                ));
                v
            },
            assumptions: &["pool addresses are identified by their creation; reference registrar kept beside the contract"],
        },
        Prop {
            id: "B02",
            scenarios: |t| {
                let mut v: Vec<Box<dyn Runner>> = vec![];
                for (name, tracker, fee) in [("full", true, Some(FEE)), ("bare", false, None)] {
                    let mut w = World::new();
                    let reg = new_registry(&mut w, &[]);
                    let r0 = cref(&[("xyk", 30, 3333), ("stable", 5, 5000)], fee, tracker, &reg);
                    let f = init(&mut w, &r0, false).unwrap();
                    v.push(bounded(CM { name: name.into(), w0: w, f, r0, ops: cops() }, 7 + t as usize));
                }
                let mut cases = vec![];
                for fee in [0u16, 1, 9_999, 10_000, 10_001, 65_535] {
                    for maker in [0u16, 5_000, 10_000, 10_001, 65_535] {
                        for dup in [false, true] {
                            for n in [1usize, 2] {
                                cases.push((fee, maker, dup, n));
                            }
                        }
                    }
                }
                v.push(grid("instantiate", cases, |(fee, maker, dup, n), cov| {
                    let mut w = World::new();
                    let reg = new_registry(&mut w, &[]);
                    let l = [("stable", 10u16, 10u16), ("xyk", *fee, *maker)];
                    let r = cref(&l[2 - n..], Some(FEE), true, &reg);
                    let x = init(&mut w, &r, *dup);
                    let ok = !*dup && *fee <= 10_000 && *maker <= 10_000;
                    vensure!(x.is_ok() == ok, "settings", "fees {fee}/{maker}, duplicated {dup}: {x:?}");
                    cov.hit(if ok { "instantiated" } else { "refused" });
                    if let Ok(f) = x {
                        report(&w, &f, &r)?;
                    }
                    Ok(())
                }));
                v
            },
            assumptions: &["refused messages leave everything unchanged by the chain's transaction rollback, which the harness reproduces"],
        },
    ]
}
