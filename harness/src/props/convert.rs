//! I04: ASTRO converters, the converter pool and the xASTRO pool.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const OLD: &str = "ibc/0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF";
const NTRN: &str = "untrn";
const BURN: &str = "terra1burner";

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Convert message with these coins
    Convert { by: String, funds: Vec<(u64, String)>, to: Option<String> },
    /// cw20 send to the converter
    Send { by: String, token: usize, v: u64, to: Option<String> },
    /// forged receive hooks
    Forge { by: String, pool: bool },
    Swap { by: String, token: usize, v: u64, funds: Vec<(u64, String)>, to: Option<String> },
    SendSwap { by: String, token: usize, v: u64, to: Option<String> },
    OtherPoolMsg { which: u8 },
    Bridge { timeout: Option<u64>, funds: Vec<(u64, String)> },
    Burn { funds: Vec<(u64, String)> },
    Give { token: usize, v: u64 },
}
#[derive(Clone)]
struct S {
    w: World,
    /// new tokens paid out, old tokens received through conversions
    paid: u128,
    got: u128,
}
struct M {
    name: String,
    w0: World,
    c: String,
    p: String,
    /// old, new, another native coin, another cw20 token, gas coin
    toks: Vec<Tok>,
    neutron: bool,
}
impl M {
    fn new(name: &str, cw20: bool, neutron: bool, gas: u128) -> M {
        let mut w = World::new();
        let users = [(ALICE, 2000u128), (BOB, 2000)];
        let old = if cw20 { Tok::T(new_cw20(&mut w, "Old Astro", 6, &users)) } else { native(OLD) };
        let other = Tok::T(new_cw20(&mut w, "Other", 6, &users));
        for (a, v) in users {
            w.fund(a, OLD, v);
            w.fund(a, "uother", v);
            w.fund(a, ASTRO, 50);
            w.fund(a, NTRN, 500);
        }
        let code = if neutron { CONVERTER_NEUTRON } else { CONVERTER };
        let params = if cw20 { Value::Null } else { json!({"terra_burn_addr": BURN, "old_astro_transfer_channel": "channel-7"}) };
        let c = w.init(OWNER, code, &json!({"old_astro_asset_info": old.info(), "new_astro_denom": ASTRO, "outpost_burn_params": params}), &[]).unwrap();
        w.fund(&c, ASTRO, 1000);
        w.fund(&c, NTRN, gas);
        // the converter pool is an old pair that was upgraded
        let reg = new_registry(&mut w, &[(OLD.into(), 6), (ASTRO.into(), 6)]);
        let f = new_factory(&mut w, &reg, vec![pair_config(Kind::Xyk, 30, 0)], None, None);
        let t = w.exec_json(OWNER, &f, json!({"create_pair": {"pair_type": {"xyk": {}}, "asset_infos": [old.info(), native(ASTRO).info()], "init_params": null}}), &[]).unwrap();
        let p = t.instantiated.iter().find(|a| w.contracts[a.as_str()].code == PAIR).unwrap().clone();
        w.poke(&p, b"contract_info", br#"{"contract":"astroport-pair","version":"1.3.3"}"#);
        w.migrate(&p, PAIR_CONVERTER, json!({"converter_contract": c})).unwrap();
        M { name: name.into(), w0: w, c, p, toks: vec![old, native(ASTRO), native("uother"), other, native(NTRN)], neutron }
    }
    fn cw20(&self) -> bool {
        !self.toks[0].native()
    }
    fn f(&self, l: &[(u64, String)]) -> Vec<cosmwasm_std::Coin> {
        l.iter().map(|(v, d)| coin(*v as u128, d)).collect()
    }
}
fn bad(to: &Option<String>) -> bool {
    to.as_deref() == Some("BAD")
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> S {
        S { w: self.w0.clone(), paid: 0, got: 0 }
    }
    fn ops(&self, s: &S, _: usize) -> Vec<Op> {
        let mut v = vec![];
        let by = ALICE.to_string();
        let c = Some(CAROL.to_string());
        let d = |l: &[(u64, &str)]| l.iter().map(|(a, b)| (*a, b.to_string())).collect::<Vec<_>>();
        // right amounts by two users
        for (x, to) in [(1, None), (400, c.clone()), (700, None)] {
            v.push(Op::Convert { by: BOB.into(), funds: d(&[(x, OLD)]), to: to.clone() });
            v.push(Op::Send { by: by.clone(), token: 0, v: x, to: to.clone() });
            v.push(Op::Swap { by: by.clone(), token: 0, v: x, funds: d(&[(x, OLD)]), to: to.clone() });
            v.push(Op::SendSwap { by: BOB.into(), token: 0, v: x, to });
        }
        // wrong tokens and amounts
        for fu in [d(&[(5, ASTRO)]), d(&[(5, "uother")]), d(&[(5, OLD), (5, "uother")]), vec![]] {
            v.push(Op::Convert { by: by.clone(), funds: fu, to: None });
        }
        v.push(Op::Convert { by: by.clone(), funds: d(&[(5, OLD)]), to: Some("BAD".into()) });
        v.push(Op::Send { by: by.clone(), token: 3, v: 5, to: None });
        v.push(Op::Send { by: by.clone(), token: 0, v: 5, to: Some("BAD".into()) });
        v.push(Op::SendSwap { by: by.clone(), token: 3, v: 5, to: None });
        v.push(Op::SendSwap { by: by.clone(), token: 0, v: 5, to: Some("BAD".into()) });
        for pool in [false, true] {
            v.push(Op::Forge { by: by.clone(), pool });
        }
        for (t, x, fu) in [(0, 5, d(&[(4, OLD)])), (0, 5, d(&[(6, OLD)])), (0, 5, vec![]), (1, 5, d(&[(5, ASTRO)])), (2, 5, d(&[(5, "uother")])), (0, 0, vec![]), (3, 5, vec![])] {
            v.push(Op::Swap { by: by.clone(), token: t, v: x, funds: fu, to: None });
        }
        v.push(Op::Swap { by: by.clone(), token: 0, v: 5, funds: d(&[(5, OLD)]), to: Some("BAD".into()) });
        for which in 0..4 {
            v.push(Op::OtherPoolMsg { which });
        }
        for t in [None, Some(119), Some(120), Some(600), Some(601)] {
            v.push(Op::Bridge { timeout: t, funds: vec![] });
        }
        v.push(Op::Bridge { timeout: None, funds: d(&[(3, "uother")]) });
        v.push(Op::Bridge { timeout: None, funds: d(&[(25, NTRN)]) });
        v.push(Op::Burn { funds: vec![] });
        v.push(Op::Burn { funds: d(&[(3, "uother")]) });
        if s.got < 2000 {
            v.push(Op::Give { token: 0, v: 9 });
        }
        v.push(Op::Give { token: 2, v: 2 });
        v
    }
    fn step(&self, s: &S, op: &Op, cov: &mut Cov) -> Result<Option<S>, Viol> {
        let mut n = s.clone();
        let w = &mut n.w;
        let old = &self.toks[0];
        let left = s.w.bal(&self.c, ASTRO);
        let has = |a: &str, t: &Tok, v: u64| t.bal(&s.w, a) >= v as u128;
        let mut e = Exp::default();
        let mut conv = |by: &str, v: u64, to: &Option<String>| {
            e.mv(by, &self.c, old.id(), v as u128);
            e.mv(&self.c, to.as_deref().unwrap_or(by), ASTRO, v as u128);
            n.paid += v as u128;
            n.got += v as u128;
        };
        // what leaves the chain: (amount, timeout)
        let mut gone: Option<(u128, u64)> = None;
        let (r, ok) = match op {
            Op::Convert { by, funds, to } => {
                let ok = !self.cw20() && funds.len() == 1 && funds[0].1 == OLD && funds[0].0 > 0 && has(by, old, funds[0].0) && left >= funds[0].0 as u128 && !bad(to);
                if ok {
                    conv(by, funds[0].0, to);
                }
                (w.exec_json(by, &self.c, json!({"convert": {"receiver": to}}), &self.f(funds)), ok)
            }
            Op::Send { by, token, v, to } => {
                let Tok::T(t) = &self.toks[*token] else { return Ok(None) };
                let ok = self.cw20() && *token == 0 && has(by, old, *v) && left >= *v as u128 && !bad(to);
                if ok {
                    conv(by, *v, to);
                }
                (w.exec_json(by, t, json!({"send": {"contract": self.c, "amount": v.to_string(), "msg": b64(&json!({"receiver": to}))}}), &[]), ok)
            }
            Op::Forge { by, pool } => {
                let (a, m) = if *pool { (&self.p, json!({"swap": {"to": by}})) } else { (&self.c, json!({"receiver": by})) };
                (w.exec_json(by, a, json!({"receive": {"sender": by, "amount": "5", "msg": b64(&m)}}), &[]), false)
            }
            Op::Swap { by, token, v, funds, to } => {
                let t = &self.toks[*token];
                let ok = !self.cw20() && *token == 0 && *v > 0 && *funds == vec![(*v, OLD.to_string())] && has(by, old, *v) && left >= *v as u128 && !bad(to);
                if ok {
                    conv(by, *v, to);
                }
                (w.exec_json(by, &self.p, json!({"swap": {"offer_asset": t.asset(*v as u128), "to": to}}), &self.f(funds)), ok)
            }
            Op::SendSwap { by, token, v, to } => {
                let Tok::T(t) = &self.toks[*token] else { return Ok(None) };
                let ok = self.cw20() && *token == 0 && has(by, old, *v) && left >= *v as u128 && !bad(to);
                if ok {
                    conv(by, *v, to);
                }
                (w.exec_json(by, t, json!({"send": {"contract": self.p, "amount": v.to_string(), "msg": b64(&json!({"swap": {"to": to}}))}}), &[]), ok)
            }
            Op::OtherPoolMsg { which } => {
                let m = match which {
                    0 => json!({"provide_liquidity": {"assets": [self.toks[1].asset(5), old.asset(0)]}}),
                    1 => json!({"withdraw_liquidity": {"assets": []}}),
                    2 => json!({"update_config": {"params": b64(&json!({}))}}),
                    _ => json!({"propose_new_owner": {"owner": ALICE, "expires_in": 5}}),
                };
                let fu = if *which == 0 { vec![coin(5, ASTRO)] } else { vec![] };
                (w.exec_json(ALICE, &self.p, m, &fu), false)
            }
            Op::Bridge { timeout, funds } => {
                let have = old.bal(&s.w, &self.c);
                let t = timeout.unwrap_or(300);
                let attached = funds.iter().find(|f| f.1 == NTRN).map_or(0, |f| f.0 as u128);
                let pays = if self.neutron { funds.iter().all(|f| f.1 == NTRN) && s.w.bal(&self.c, NTRN) + attached >= 50 } else { funds.is_empty() };
                let ok = !self.cw20() && pays && (120..=600).contains(&t) && have > 0;
                if ok {
                    gone = Some((have, t));
                    e.add(&self.c, old.id(), -(have as i128));
                    if self.neutron {
                        e.mv(ALICE, &self.c, NTRN, attached).add(&self.c, NTRN, -50);
                    }
                }
                (w.exec_json(ALICE, &self.c, json!({"transfer_for_burning": {"timeout": timeout}}), &self.f(funds)), ok)
            }
            Op::Burn { funds } => {
                let have = old.bal(&s.w, &self.c);
                let ok = self.cw20() && !self.neutron && funds.is_empty() && have > 0;
                if ok {
                    e.add(&self.c, old.id(), -(have as i128));
                }
                (w.exec_json(ALICE, &self.c, json!({"burn": {}}), &self.f(funds)), ok)
            }
            Op::Give { token, v } => {
                let t = &self.toks[*token];
                let r = match t {
                    Tok::N(d) => w.send(BOB, &self.c, d, *v as u128),
                    Tok::T(t) => w.exec_json(BOB, t, json!({"transfer": {"recipient": self.c, "amount": v.to_string()}}), &[]).map(|_| ()),
                };
                return Ok(r.is_ok().then_some(n));
            }
        };
        let k = format!("{op:?}").split(' ').next().unwrap().to_lowercase();
        cov.hit(&format!("{k}-{}", if r.is_ok() { "accepted" } else { "refused" }));
        vensure!(r.is_ok() == ok, k, "{op:?} with {left} new tokens left: {:?}", r.err());
        let before = balances(&s.w);
        let d = diff(&before, &balances(&n.w));
        vensure!(d == e.0, k, "{op:?} moved {d:?} instead of {:?}", e.0);
        let Ok(t) = r else { return Ok(None) };
        match gone {
            None => vensure!(t.out.is_empty(), "message", "{op:?} sent {:?}", t.out),
            Some((v, to)) => {
                vensure!(t.out.len() == 1, "message", "{op:?} sent {:?}", t.out);
                let m: Value = serde_json::from_slice(&t.out[0].1).unwrap();
                let end = ((s.w.time + to) * 1_000_000_000).to_string();
                if self.neutron {
                    let x = &m["ibc_transfer"];
                    let tt = &x["timeout_timestamp"];
                    vensure!(
                        x["source_channel"] == json!("channel-7") && x["receiver"] == json!(BURN) && x["token"] == json!({"denom": OLD, "amount": v.to_string()})
                            && (tt.as_str().map(|x| x.to_string()).or(tt.as_u64().map(|x| x.to_string()))) == Some(end.clone()),
                        "message", "{op:?} sent {m}"
                    );
                } else {
                    let x = &m["ibc"]["transfer"];
                    vensure!(
                        x["channel_id"] == json!("channel-7") && x["to_address"] == json!(BURN) && x["amount"] == json!({"denom": OLD, "amount": v.to_string()})
                            && x["timeout"]["timestamp"] == json!(end) && x["timeout"]["block"].is_null(),
                        "message", "{op:?} sent {m}"
                    );
                }
            }
        }
        Ok(Some(n))
    }
    fn fp(&self, s: &S) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.u128(s.paid);
        h.u128(s.got);
        h.done()
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Result<(), Viol> {
        vensure!(self.w0.bal(&self.c, ASTRO) - s.w.bal(&self.c, ASTRO) == s.paid && s.paid == s.got, "backing", "{} paid out for {}", s.paid, s.got);
        for v in [0u128, 1, 999, 1 << 100] {
            let sim = |t: &Tok| s.w.q(&self.p, json!({"simulation": {"offer_asset": t.asset(v)}}));
            let rev = |t: &Tok| s.w.q(&self.p, json!({"reverse_simulation": {"ask_asset": t.asset(v)}}));
            let r = sim(&self.toks[0]).map_err(|e| e)?;
            vensure!(u(&r["return_amount"]) == v && u(&r["spread_amount"]) == 0 && u(&r["commission_amount"]) == 0, "simulation", "{v}: {r}");
            let r = rev(&self.toks[1]).map_err(|e| e)?;
            vensure!(u(&r["offer_amount"]) == v && u(&r["spread_amount"]) == 0 && u(&r["commission_amount"]) == 0, "simulation", "{v}: {r}");
            for i in 1..4 {
                vensure!(sim(&self.toks[i]).is_err(), "simulation", "selling {:?} is quoted", self.toks[i]);
                vensure!(rev(&self.toks[if i == 1 { 0 } else { i }]).is_err(), "simulation", "buying {:?} is quoted", self.toks[i]);
            }
        }
        cov.hit("quotes");
        Ok(())
    }
}

// ---------------------------------------------------------------- the xASTRO pool
#[derive(Clone, Debug, Serialize, Deserialize)]
enum XOp {
    Stake { v: u64 },
    Unstake { v: u64 },
    Donate { v: u64 },
    Swap { x: bool, v: u64, to: Option<String> },
    Wrong { which: u8 },
    Give { x: bool },
}
struct X {
    name: String,
    w0: World,
    st: String,
    p: String,
    x: String,
    amounts: Vec<u64>,
}
impl X {
    fn new(name: &str, amounts: Vec<u64>) -> X {
        let mut w = World::new();
        for a in USERS {
            w.fund(a, ASTRO, 1 << 80);
            w.fund(a, "uother", 1000);
        }
        let st = new_staking(&mut w, ASTRO);
        let x = w.q(&st, json!({"config": {}})).unwrap()["xastro_denom"].as_str().unwrap().to_string();
        let reg = new_registry(&mut w, &[(x.clone(), 6), (ASTRO.into(), 6)]);
        let f = new_factory(&mut w, &reg, vec![], None, None);
        let p = w
            .init(OWNER, PAIR_XASTRO, &json!({"pair_type": {"custom": "astroport-pair-xastro"}, "asset_infos": [native(ASTRO).info(), native(&x).info()],
                "token_code_id": 0, "factory_addr": f, "init_params": b64(&json!({"staking": st}))}), &[])
            .unwrap();
        X { name: name.into(), w0: w, st, p, x, amounts }
    }
}
impl Model for X {
    type S = World;
    type Op = XOp;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> World {
        self.w0.clone()
    }
    fn ops(&self, s: &World, _: usize) -> Vec<XOp> {
        let mut v = vec![];
        for a in &self.amounts {
            v.push(XOp::Stake { v: *a });
            v.push(XOp::Swap { x: false, v: *a, to: None });
            v.push(XOp::Swap { x: false, v: *a, to: Some(CAROL.into()) });
        }
        v.push(XOp::Donate { v: 1 });
        v.push(XOp::Donate { v: 7_777 });
        let b = s.bal(ALICE, &self.x) as u64;
        for a in [1, 1 + b / 3, b, b + 1] {
            v.push(XOp::Swap { x: true, v: a, to: None });
            v.push(XOp::Swap { x: true, v: a, to: Some(CAROL.into()) });
        }
        v.push(XOp::Unstake { v: (s.bal(BOB, &self.x) / 2) as u64 });
        for which in 0..7 {
            v.push(XOp::Wrong { which });
        }
        for x in [false, true] {
            v.push(XOp::Give { x });
        }
        v
    }
    fn step(&self, s: &World, op: &XOp, cov: &mut Cov) -> Result<Option<World>, Viol> {
        let mut n = s.clone();
        let swap = |d: &str, v: u64, to: &Option<String>| json!({"swap": {"offer_asset": native(d).asset(v as u128), "to": to, "max_spread": "0.5"}});
        match op {
            XOp::Stake { v } => Ok(n.exec_json(BOB, &self.st, json!({"enter": {}}), &[coin(*v as u128, ASTRO)]).is_ok().then_some(n)),
            XOp::Unstake { v } => Ok(n.exec_json(BOB, &self.st, json!({"leave": {}}), &[coin(*v as u128, &self.x)]).is_ok().then_some(n)),
            XOp::Donate { v } => Ok(n.send(BOB, &self.st, ASTRO, *v as u128).is_ok().then_some(n)),
            XOp::Give { x } => Ok(n.send(BOB, &self.p, if *x { &self.x } else { ASTRO }, 3).is_ok().then_some(n)),
            XOp::Wrong { which } => {
                let f = |v: u128, d: &str| vec![coin(v, d)];
                let (m, fu) = match which {
                    0 => (swap("uother", 5, &None), f(5, "uother")),
                    1 => (swap(ASTRO, 5000, &None), f(4999, ASTRO)),
                    2 => (swap(ASTRO, 5000, &None), f(5001, ASTRO)),
                    3 => (swap(ASTRO, 5000, &None), vec![]),
                    4 => (swap(&self.x, 1, &None), f(5000, ASTRO)),
                    5 => (json!({"provide_liquidity": {"assets": [native(ASTRO).asset(5)]}}), f(5, ASTRO)),
                    _ => (json!({"receive": {"sender": ALICE, "amount": "5", "msg": b64(&json!({"swap": {}}))}}), vec![]),
                };
                cov.hit("wrong-message");
                vensure!(n.exec_json(ALICE, &self.p, m, &fu).is_err(), "wrong-message", "{op:?} was accepted");
                Ok(None)
            }
            XOp::Swap { x, v, to } => {
                let d = if *x { self.x.as_str() } else { ASTRO };
                let fu = [coin(*v as u128, d)];
                let mut direct = s.clone();
                let e = direct.exec_json(ALICE, &self.st, if *x { json!({"leave": {"receiver": to}}) } else { json!({"enter": {"receiver": to}}) }, &fu);
                let sim = s.q(&self.p, json!({"simulation": {"offer_asset": native(d).asset(*v as u128)}}));
                let r = n.exec_json(ALICE, &self.p, swap(d, *v, to), &fu);
                cov.hit(&format!("swap-{x}-{}", if r.is_ok() { "accepted" } else { "refused" }));
                vensure!(r.is_ok() == e.is_ok(), "swap", "{op:?}: {:?}, but staking directly: {:?}", r.err(), e.err());
                let Ok(t) = r else { return Ok(None) };
                let df = diff(&balances(s), &balances(&n));
                let ed = diff(&balances(s), &balances(&direct));
                vensure!(df == ed, "swap", "{op:?} moved {df:?}, staking directly {ed:?}");
                let ask = if *x { ASTRO } else { &self.x };
                let who = to.as_deref().unwrap_or(ALICE);
                let got = n.bal(who, ask) - s.bal(who, ask);
                let sim = sim.map_err(|e| Viol { key: "simulation".into(), msg: format!("{op:?} pays {got} but is not quoted: {e}") })?;
                vensure!(
                    u(&sim["return_amount"]) == got && u(&sim["spread_amount"]) == 0 && u(&sim["commission_amount"]) == 0,
                    "simulation", "{op:?} pays {got} with {} staked for {} shares, the quote is {sim}", s.bal(&self.st, ASTRO), s.supply(&self.x)
                );
                vensure!(t.attr_u(&self.p, "return_amount") == Some(got), "reported", "{op:?} pays {got} and reports {:?}", t.attr(&self.p, "return_amount"));
                // the reverse quote for what was paid
                if s.supply(&self.x) > 0 {
                    let q = s.q(&self.p, json!({"reverse_simulation": {"ask_asset": native(ask).asset(got)}})).map_err(|e| e)?;
                    let o = u(&q["offer_amount"]);
                    let pay = |v: u128| if *x { v * s.bal(&self.st, ASTRO) / s.supply(&self.x) } else { v * s.supply(&self.x) / s.bal(&self.st, ASTRO) };
                    vensure!(pay(o + 1) >= got && pay(o.saturating_sub(1)) <= got, "reverse", "{got} is quoted to cost {o}, which pays {}", pay(o));
                    cov.hit("reverse-quote");
                }
                Ok(Some(n))
            }
        }
    }
    fn fp(&self, s: &World) -> u128 {
        let mut h = H::new();
        s.fp(&mut h, true);
        h.done()
    }
    fn check(&self, s: &World, cov: &mut Cov) -> Result<(), Viol> {
        for q in [json!({"simulation": {"offer_asset": native("uother").asset(5)}}), json!({"reverse_simulation": {"ask_asset": native("uother").asset(5)}})] {
            vensure!(s.q(&self.p, q.clone()).is_err(), "simulation", "{q} is quoted");
        }
        let total = s.supply(&self.x);
        let sim = |d: &str, v: u128| s.q(&self.p, json!({"simulation": {"offer_asset": native(d).asset(v)}}));
        vensure!(sim(&self.x, total + 1).is_err(), "simulation", "unstaking more than there is is quoted");
        vensure!(sim(&self.x, total).is_ok() || total == 0, "simulation", "unstaking all {total} shares is not quoted");
        if total == 0 {
            for v in [1, 999, 1000] {
                vensure!(sim(ASTRO, v).is_err(), "simulation", "a first stake of {v} is quoted");
            }
            let r = sim(ASTRO, 1001).map_err(|e| e)?;
            vensure!(u(&r["return_amount"]) == 1, "simulation", "a first stake of 1001 is quoted {r}");
            let rev = s.q(&self.p, json!({"reverse_simulation": {"ask_asset": native(&self.x).asset(5)}}));
            vensure!(rev.is_err(), "simulation", "buying shares is quoted before there are any: {rev:?}");
            cov.hit("quotes-before-first-stake");
        }
        Ok(())
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "I04",
        scenarios: |t| {
            let d = if t { 7 } else { 5 };
            vec![
                bounded(M::new("I04:native", false, false, 0), d),
                bounded(M::new("I04:cw20", true, false, 0), d),
                bounded(M::new("I04:neutron", false, true, 70), d),
                bounded(M::new("I04:neutron-cw20", true, true, 70), d),
                bounded(X::new("I04:xastro", vec![1, 1001, 50_000]), d),
            ]
        },
        assumptions: &["the chain takes the coin and the fees of an interchain transfer from the contract"],
    }]
}
