//! B03: two-step ownership transfer of every contract that offers it.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

const A: &str = "wasm1newowner";
const B: &str = "wasm1other";
const X: &str = "wasm1stranger";
const WHO: [&str; 4] = [OWNER, A, B, X];
const MAX: u64 = 1_209_600;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Propose { c: usize, who: String, new: String, exp: u64 },
    Drop { c: usize, who: String },
    Claim { c: usize, who: String },
    Wait { s: u64 },
}
#[derive(Clone)]
struct S {
    w: World,
    /// own owner of each contract (None: the first contract's owner)
    own: Vec<Option<String>>,
    prop: Vec<Option<(String, u64)>>,
}
struct M {
    name: String,
    w0: World,
    addr: Vec<String>,
    own0: Vec<Option<String>>,
}
impl S {
    fn owner(&self, c: usize) -> &str {
        self.own[c].as_deref().unwrap_or_else(|| self.own[0].as_deref().unwrap())
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        S { w: self.w0.clone(), own: self.own0.clone(), prop: vec![None; self.addr.len()] }
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        let mut v = vec![];
        let joint = self.addr.len() > 1;
        for c in 0..self.addr.len() {
            for who in &WHO[..3] {
                if *who == s.owner(c) {
                    for new in &WHO[..3] {
                        for exp in [0, 100, MAX, MAX + 1, u64::MAX] {
                            if !joint || exp == 100 {
                                v.push(Op::Propose { c, who: who.to_string(), new: new.to_string(), exp });
                            }
                        }
                    }
                }
            }
            for who in WHO {
                if who != s.owner(c) {
                    v.push(Op::Propose { c, who: who.into(), new: if who == X { B.into() } else { who.into() }, exp: 100 });
                }
                v.push(Op::Drop { c, who: who.into() });
                v.push(Op::Claim { c, who: who.into() });
            }
        }
        for s in [1, 100, MAX] {
            if !joint || s == 100 {
                v.push(Op::Wait { s });
            }
        }
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        let now = s.w.time;
        let (c, who, msg, ok) = match op {
            Op::Wait { s } => {
                n.w.advance(*s, 1);
                return Ok(Some(n));
            }
            Op::Propose { c, who, new, exp } => {
                let ok = who == s.owner(*c) && new != who && *exp <= MAX;
                if ok {
                    n.prop[*c] = Some((new.clone(), now + exp));
                }
                (*c, who, json!({"propose_new_owner": {"owner": new, "expires_in": exp}}), Some(ok))
            }
            Op::Drop { c, who } => {
                let ok = who == s.owner(*c);
                if ok {
                    n.prop[*c] = None;
                }
                // dropping nothing may succeed or be refused
                (*c, who, json!({"drop_ownership_proposal": {}}), if ok && s.prop[*c].is_none() { None } else { Some(ok) })
            }
            Op::Claim { c, who } => {
                let ok = s.prop[*c].as_ref().is_some_and(|(p, ttl)| p == who && now <= *ttl);
                if ok {
                    n.own[*c] = Some(who.clone());
                    n.prop[*c] = None;
                }
                (*c, who, json!({"claim_ownership": {}}), Some(ok))
            }
        };
        let r = n.w.exec_json(who, &self.addr[c], msg, &[]);
        let kind = format!("{op:?}").split(' ').next().unwrap().to_lowercase();
        cov.hit(&format!("{kind}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        if let Some(ok) = ok {
            vensure!(r.is_ok() == ok, "hand-over", "{op:?} with owner {} and proposal {:?} at {now}: {:?}", s.owner(c), s.prop[c], r.err());
        }
        Ok(r.is_ok().then_some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, false);
        for p in &s.prop {
            h.u64(p.as_ref().map_or(u64::MAX, |(_, t)| if *t < s.w.time { u64::MAX - 1 } else { t - s.w.time }));
        }
        for o in &s.own {
            h.str(o.as_deref().unwrap_or(""));
        }
        h.str(&format!("{:?}", s.prop.iter().map(|p| p.as_ref().map(|x| &x.0)).collect::<Vec<_>>()));
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        for c in 0..self.addr.len() {
            let o = s.w.q(&self.addr[c], json!({"config": {}})).map_err(|e| Viol { key: "config".into(), msg: e })?;
            vensure!(o["owner"] == json!(s.owner(c)), "owner", "the owner is {} instead of {}", o["owner"], s.owner(c));
            let probe = match s.w.contracts[self.addr[c].as_str()].code {
                FACTORY => json!({"update_config": {"token_code_id": 1}}),
                STABLE => json!({"update_config": {"params": b64(&json!({"enable_fee_share": {"fee_share_bps": 5, "fee_share_address": SHARE}}))}}),
                PCL => json!({"update_config": {"params": b64(&json!({"enable_fee_share": {"fee_share_bps": 5, "fee_share_address": SHARE}}))}}),
                FEE_GRANTER => json!({"update_admins": {}}),
                REGISTRY => json!({"add": {"native_coins": [["uzzz", 6]]}}),
                INCENTIVES => json!({"update_config": {"guardian": B}}),
                MAKER => json!({"update_seize_config": {"receiver": B, "seizable_assets": []}}),
                _ => json!({"propose_new_owner": {"owner": "wasm1fresh", "expires_in": 5}}),
            };
            for who in WHO {
                let r = s.w.clone().exec_json(who, &self.addr[c], probe.clone(), &[]);
                cov.hit(if r.is_ok() { "owner-message-accepted" } else { "owner-message-refused" });
                vensure!(r.is_ok() == (who == s.owner(c)), "power", "with owner {} an owner's message of {who} gave {:?}", s.owner(c), r.err());
            }
        }
        Ok(())
    }
}
fn models() -> Vec<M> {
    let mut v = vec![];
    let mut one = |name: &str, w: World, addr: String, joint: Option<String>| {
        let mut all = vec![];
        let mut own = vec![];
        if let Some(f) = joint {
            all.push(f);
            own.push(Some(OWNER.to_string()));
            own.push(None);
        } else {
            own.push(Some(OWNER.to_string()));
        }
        all.push(addr);
        v.push(M { name: format!("B03:{name}"), w0: w, addr: all, own0: own });
    };
    for (k, n) in [(Kind::Stable, "pair_stable"), (Kind::Pcl, "pair_concentrated")] {
        let (mut w, mut p) = build(&Cfg::new(k));
        if k == Kind::Stable {
            one(n, w.clone(), p.addr.clone(), None);
            // a second pool without an owner of its own
            w.fund(SEED, "uccc", 1);
            w.exec_json(OWNER, &w.q(&p.factory, json!({"config": {}})).unwrap()["coin_registry_address"].as_str().unwrap().to_string(), json!({"add": {"native_coins": [["uccc", 6]]}}), &[]).unwrap();
            let t = w.exec_json(OWNER, &p.factory, json!({"create_pair": {"pair_type": k.pair_type(), "asset_infos": [native("uaaa").info(), native("uccc").info()], "init_params": b64(&json!({"amp": 10}))}}), &[]).unwrap();
            p.addr = t.instantiated.iter().find(|a| w.contracts[a.as_str()].code == STABLE).unwrap().clone();
        }
        one(&format!("factory+{n}"), w, p.addr.clone(), Some(p.factory.clone()));
    }
    let (w, p) = build(&Cfg::new(Kind::Xyk));
    one("factory", w.clone(), p.factory.clone(), None);
    let mut w1 = w.clone();
    let a = new_registry(&mut w1, &[]);
    one("native_coin_registry", w1, a, None);
    let mut w1 = w.clone();
    let a = new_fee_granter(&mut w1);
    one("fee_granter", w1, a, None);
    let mut w1 = w.clone();
    let a = new_vesting(&mut w1, &native(ASTRO));
    one("vesting", w1, a, None);
    let mut w1 = w.clone();
    let a = incentives_with_vesting(&mut w1, &p.factory, 1000).0;
    one("incentives", w1, a, None);
    let mut w1 = w.clone();
    let a = new_maker(&mut w1, &p.factory, &native(ASTRO), json!({"staking_contract": FEE})).unwrap();
    one("maker", w1, a, None);
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B03",
        scenarios: |thorough| {
            models()
                .into_iter()
                .map(|m| {
                    let d = if m.addr.len() > 1 { if thorough { 8 } else { 6 } } else if thorough { 10 } else { 7 };
                    bounded(m, d)
                })
                .collect()
        },
        assumptions: &["owners and candidates are ordinary accounts; times are block times in whole seconds"],
    }]
}
