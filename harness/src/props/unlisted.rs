//! A15: what the factory does with a pool's listing never touches what users have in the pool.
//! Every history runs twice: in one world the factory delists, relists, disables and changes its settings, in the
//! other (the twin) it never does. Withdrawals and swaps must do the same in both.
use super::ops::{trans_alphabet, trans_cfg};
use super::pools;
use crate::engine::*;
use crate::pm::{user, Op as Pop, PM};
use crate::pool::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Pool(Pop),
    Dereg,
    /// create a pair for the same assets
    Relist,
    Disable(bool),
    /// point the factory to other periphery contracts
    Settings(u8),
}
#[derive(Clone)]
struct S {
    w: World,
    twin: World,
    listed: bool,
    settings: u8,
}
struct M {
    pm: PM,
    registry2: String,
}
const ALL: &[&str] = &[ALICE, BOB, SEED, CAROL, FEE, SHARE, TAXR];
impl M {
    fn new(name: &str, cfg: Cfg, alphabet: Vec<Pop>) -> M {
        let mut pm = PM::new(name, cfg, alphabet, &[]);
        let registry2 = new_registry(&mut pm.w0, &[]);
        M { pm, registry2 }
    }
    fn infos(&self) -> Value {
        self.pm.p.toks.iter().map(|t| t.info()).collect()
    }
    fn conf(&self, off: bool) -> Value {
        let c = &self.pm.p.cfg;
        let mut v = if c.book.is_some() { book_pair_config(c.fee, c.maker) } else { pair_config(c.kind, c.fee, c.maker) };
        v["is_disabled"] = json!(off);
        v
    }
    /// what everyone involved holds of the pool's assets and shares
    fn holds(&self, w: &World) -> Vec<u128> {
        let p = &self.pm.p;
        let mut v = p.reserves(w);
        for a in ALL {
            v.extend(p.toks.iter().map(|t| t.bal(w, a)));
            v.push(p.lp_of(w, a));
        }
        v.push(p.supply(w));
        v
    }
    fn guarded(&self) -> bool {
        matches!(self.pm.p.kind, Kind::Pcl)
    }
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.pm.name.clone()
    }
    fn init(&self) -> S {
        S { w: self.pm.w0.clone(), twin: self.pm.w0.clone(), listed: true, settings: 0 }
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        let mut v: Vec<Op> = self.pm.alphabet.iter().cloned().map(Op::Pool).collect();
        // (a transmuter is created with its settings in no particular order, which would give every run another state)
        if s.listed {
            v.push(Op::Dereg);
        } else if self.pm.p.kind != Kind::Trans {
            v.push(Op::Relist);
        }
        v.extend([Op::Disable(true), Op::Disable(false)]);
        v.extend((1..=3).map(Op::Settings));
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let p = &self.pm.p;
        let mut n = s.clone();
        let before = self.holds(&s.w);
        let r = match op {
            Op::Pool(o) => {
                let (a, w, _) = self.pm.apply(&s.w, o);
                if let Pop::Provide { .. } = o {
                    if self.guarded() && !s.listed {
                        vensure!(a.is_err(), "deposit", "deposit {o:?} accepted by a pool whose assets have no registered pair");
                        cov.hit("unlisted-deposit-refused");
                        return Ok(None);
                    }
                }
                let (b, twin, _) = self.pm.apply(&s.twin, o);
                vensure!(a.is_ok() == b.is_ok(), "differs", "{o:?}: {:?}; had the factory not changed anything: {:?}", a.as_ref().err(), b.as_ref().err());
                let k = match o {
                    Pop::Provide { .. } => "provide",
                    Pop::Withdraw { .. } => "withdraw",
                    Pop::Swap { .. } => "swap",
                    _ => "other",
                };
                cov.hit(&format!("{}{k}-{}", if s.listed { "" } else { "unlisted-" }, if a.is_ok() { "ok" } else { "refused" }));
                if a.is_err() {
                    return Ok(None);
                }
                (n.w, n.twin) = (w, twin);
                let (x, y) = (self.holds(&n.w), self.holds(&n.twin));
                vensure!(x == y, "differs", "{o:?} leaves holdings {x:?}; had the factory not changed anything: {y:?}");
                return Ok(Some(n));
            }
            Op::Dereg => {
                n.listed = false;
                n.w.exec_json(OWNER, &p.factory, json!({"deregister": {"asset_infos": self.infos()}}), &[])
            }
            Op::Relist => {
                n.listed = true;
                let ip = if p.kind == Kind::Trans { Value::Null } else { json!(b64(&init_params(&p.cfg, &p.toks))) };
                n.w.exec_json(OWNER, &p.factory, json!({"create_pair": {"pair_type": p.cfg.pair_type(), "asset_infos": self.infos(), "init_params": ip}}), &[])
            }
            Op::Disable(off) => n.w.exec_json(OWNER, &p.factory, json!({"update_pair_config": {"config": self.conf(*off)}}), &[]),
            Op::Settings(k) => {
                n.settings |= 1 << k;
                let m = match k {
                    1 => json!({"coin_registry_address": self.registry2}),
                    2 => json!({"generator_address": BOB}),
                    _ => json!({"whitelist_code_id": 999, "token_code_id": 998}),
                };
                n.w.exec_json(OWNER, &p.factory, json!({"update_config": m}), &[])
            }
        };
        let k = match op {
            Op::Dereg => "deregister",
            Op::Relist => "relist",
            Op::Disable(_) => "disable",
            _ => "settings",
        };
        cov.hit(&format!("{k}-{}", if r.is_ok() { "ok" } else { "refused" }));
        if r.is_err() {
            return Ok(None);
        }
        let after = self.holds(&n.w);
        vensure!(before == after, "moved", "{op:?} changed what the pool and its users hold: {before:?} -> {after:?}");
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, self.pm.time);
        s.twin.fp(&mut h, self.pm.time);
        h.done()
    }
    /// everyone can take out what their shares are worth, and the pool says the same as its twin
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        let p = &self.pm.p;
        for u in 0..3 {
            let (who, lp) = (user(u), p.lp_of(&s.w, user(u)));
            let share = p.w_q(&s.w, json!({"share": {"amount": lp.to_string()}}))?;
            let want: Vec<u128> = share.as_array().into_iter().flatten().map(|a| crate::pool::u(&a["amount"])).collect();
            if lp == 0 || want.iter().any(|v| *v == 0) {
                continue;
            }
            let mut n = s.w.clone();
            let before: Vec<u128> = p.toks.iter().map(|t| t.bal(&n, who)).collect();
            let r = p.withdraw(&mut n, who, lp, json!({}));
            vensure!(r.is_ok(), "locked", "{who} cannot withdraw {lp} shares worth {want:?}: {:?}", r.err());
            let got: Vec<u128> = p.toks.iter().zip(&before).map(|(t, b)| t.bal(&n, who) - b).collect();
            vensure!(got == want, "locked", "{who} withdraws {lp} shares worth {want:?} and gets {got:?}");
            cov.hit(if s.listed { "withdrawable" } else { "unlisted-withdrawable" });
        }
        if self.guarded() && !s.listed {
            let r = s.w.q(&p.addr, json!({"simulate_provide": {"assets": p.assets(&[20_000_000, 10_000_000]), "slippage_tolerance": "0.5"}}));
            vensure!(r.is_err(), "deposit", "a deposit is simulated to mint {r:?}, but the pool takes none");
        }
        for i in 0..2 {
            let v = p.reserves(&s.w)[i] / 100;
            let ask = (p.n() > 2).then_some(1 - i);
            let (a, b) = (p.sim(&s.w, i, v, ask), p.sim(&s.twin, i, v, ask));
            vensure!(a.is_ok() == b.is_ok() && a.as_ref().ok() == b.as_ref().ok(), "differs", "swap of {v} simulated as {a:?}; had the factory not changed anything: {b:?}");
        }
        Ok(())
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A15",
        scenarios: |t| {
            let mut v: Vec<Box<dyn Runner>> = vec![];
            for s in pools::all(t) {
                let mut al = vec![
                    Pop::Swap { u: 0, i: 0, j: 1, v: *s.swaps[0].last().unwrap(), to: false },
                    Pop::Swap { u: 1, i: 1, j: 0, v: *s.swaps[1].last().unwrap(), to: true },
                ];
                al.extend(crate::pm::provides(&[0], &s.provides[..2]));
                al.push(Pop::Provide { u: 1, a: s.provides[0].to_vec(), to: true, stake: false });
                al.extend(crate::pm::withdraws(&[0, 2], &[(1, 1), (1, 3)]));
                let slow = s.cfg.kind == Kind::Pcl;
                v.push(bounded(M::new(&s.name, s.cfg.clone(), al), if slow || s.cfg.kind == Kind::Stable { 4 } else { 5 } + t as usize));
                if slow {
                    // the first deposit, too
                    let f = pools::fresh(&s);
                    let k = f.provides.len();
                    v.push(bounded(M::new(&f.name, f.cfg.clone(), crate::pm::provides(&[0], &f.provides[k - 2..])), 3 + t as usize));
                }
            }
            let c = super::duality::pool_cfg([6, 6], 1000, 2, "0.2", 1000);
            let mut al = crate::pm::provides(&[0], &[[20_000_000, 10_000_000], [300_000_000, 7_000_000]]);
            al.push(Pop::Swap { u: 0, i: 0, j: 1, v: 123_000_000, to: false });
            al.push(Pop::Swap { u: 0, i: 1, j: 0, v: 61_000_000, to: true });
            al.extend(crate::pm::withdraws(&[0, 2], &[(1, 1), (1, 3)]));
            v.push(bounded(M::new("Duality-6-6", c, al), 3 + t as usize));
            v.push(bounded(M::new("Trans-6-8-6", trans_cfg(), trans_alphabet(&[0])), 3 + t as usize));
            v
        },
        assumptions: &["deposits that are staked at once are left out (the incentives contract takes no shares of unlisted pools)", "the collector of fees and the fee rates stay as they are (A02 covers their changes)"],
    }]
}
