//! B04: privileged messages are for their role only; hooks and internal steps give outsiders nothing.
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const NEWOWNER: &str = "wasm1newowner";
const NEWGUARD: &str = "wasm1newguardian";
const NEWCTRL: &str = "wasm1newcontroller";
const NEWTAX: &str = "wasm1newtaxadmin";
const NEWFG: &str = "wasm1newfgadmin";
const NEWWL: &str = "wasm1newwladmin";
const EVIL: &str = "wasm1evil";

/// who holds which role
#[derive(Clone, Debug)]
struct Roles(BTreeMap<&'static str, Vec<String>>);
impl Roles {
    fn of(&self, r: &str) -> Vec<String> {
        self.0[r].clone()
    }
}
struct Probe {
    name: String,
    to: String,
    msg: Value,
    funds: Vec<Coin>,
    allowed: Vec<String>,
}
use cosmwasm_std::Coin;

fn base_roles(e: &Eco) -> Roles {
    let o = || vec![OWNER.to_string()];
    Roles(
        [
            ("factory", o()),
            ("registry", o()),
            ("incentives", o()),
            ("guardian", vec![GUARDIAN.into()]),
            ("controller", vec![CONTROLLER.into()]),
            ("vesting", o()),
            ("vesting-cw20", o()),
            ("maker", o()),
            ("fee_granter", o()),
            ("fgadmins", vec![FGADMIN.into()]),
            ("taxadmin", vec![TAXADM.into()]),
            ("stable", vec![POOLOWNER.into()]),
            ("pcl", vec![POOLOWNER.into()]),
            ("whitelist", vec![WLADMIN.into()]),
            ("minter", vec![MINTER.into()]),
            ("generator", vec![e.at["incentives"].clone()]),
        ]
        .into_iter()
        .collect(),
    )
}
/// moves every role of the ecosystem to somebody else
fn reassign(e: &mut Eco, r: &mut Roles) {
    let w = &mut e.w;
    let mut hand = |w: &mut World, c: &str, from: &str| {
        w.exec_json(from, &e.at[c], json!({"propose_new_owner": {"owner": NEWOWNER, "expires_in": 1000}}), &[]).unwrap();
        w.exec_json(NEWOWNER, &e.at[c], json!({"claim_ownership": {}}), &[]).unwrap();
    };
    w.exec_json(OWNER, &e.at["incentives"], json!({"update_config": {"guardian": NEWGUARD, "generator_controller": NEWCTRL}}), &[]).unwrap();
    w.exec_json(OWNER, &e.at["fee_granter"], json!({"update_admins": {"add": [NEWFG], "remove": [FGADMIN]}}), &[]).unwrap();
    w.exec_json(TAXADM, &e.at["tax"], json!({"update_config": {"params": b64(&json!({"tax_config_admin": NEWTAX}))}}), &[]).unwrap();
    w.exec_json(WLADMIN, &e.at["whitelist"], json!({"update_admins": {"admins": [NEWWL]}}), &[]).unwrap();
    for c in ["factory", "registry", "incentives", "vesting", "vesting-cw20", "maker", "fee_granter"] {
        hand(w, c, OWNER);
    }
    for c in ["stable", "pcl"] {
        hand(w, c, POOLOWNER);
    }
    for c in ["factory", "registry", "incentives", "vesting", "vesting-cw20", "maker", "fee_granter", "stable", "pcl"] {
        r.0.insert(c, vec![NEWOWNER.into()]);
    }
    r.0.insert("guardian", vec![NEWGUARD.into()]);
    r.0.insert("controller", vec![NEWCTRL.into()]);
    r.0.insert("fgadmins", vec![NEWFG.into()]);
    r.0.insert("taxadmin", vec![NEWTAX.into()]);
    r.0.insert("whitelist", vec![NEWWL.into()]);
}
/// the factory and the pools with owners of their own are in different hands
fn split(e: &mut Eco, r: &mut Roles) {
    e.w.exec_json(OWNER, &e.at["factory"], json!({"propose_new_owner": {"owner": NEWOWNER, "expires_in": 1000}}), &[]).unwrap();
    e.w.exec_json(NEWOWNER, &e.at["factory"], json!({"claim_ownership": {}}), &[]).unwrap();
    r.0.insert("factory", vec![NEWOWNER.into()]);
    // the pair type used by the probes needs permission
    let mut c = pair_config(Kind::Trans, 30, 3333);
    c["permissioned"] = json!(true);
    e.w.exec_json(NEWOWNER, &e.at["factory"], json!({"update_pair_config": {"config": c}}), &[]).unwrap();
}

fn probes(e: &Eco, r: &Roles) -> Vec<Probe> {
    let mut v: Vec<Probe> = vec![];
    let w = &e.w;
    let mut add = |n: &str, c: &str, msg: Value, funds: &[Coin], allowed: Vec<String>| {
        v.push(Probe { name: format!("{c}:{n}"), to: e.at[c].clone(), msg, funds: funds.to_vec(), allowed });
    };
    let own = |c: &str| r.of(c);
    let me = |c: &str| vec![e.at[c].clone()];
    let upd = |p: Value| json!({"update_config": {"params": b64(&p)}});
    let lp = |n: &str| e.pools[n].lp.clone();
    let info = |d: &str| native(d).info();
    let now = w.time;
    // factory
    for (n, m) in [
        ("token_code", json!({"token_code_id": 77})),
        ("fee_address", json!({"fee_address": "wasm1evilfee"})),
        ("generator", json!({"generator_address": "wasm1evilgen"})),
        ("whitelist", json!({"whitelist_code_id": 77})),
        ("coin_registry", json!({"coin_registry_address": "wasm1evilreg"})),
    ] {
        add(n, "factory", json!({"update_config": m}), &[], own("factory"));
    }
    add("tracker", "factory", json!({"update_tracker_config": {"tracker_code_id": 77, "token_factory_addr": TF_MODULE}}), &[], own("factory"));
    add("pair_config", "factory", json!({"update_pair_config": {"config": pair_config(Kind::Xyk, 10, 5000)}}), &[], own("factory"));
    add("new_pair_config", "factory", json!({"update_pair_config": {"config": {"code_id": 2, "pair_type": {"custom": "evil"}, "total_fee_bps": 10, "maker_fee_bps": 0, "is_disabled": false, "is_generator_disabled": false, "permissioned": false}}}), &[], own("factory"));
    add("deregister", "factory", json!({"deregister": {"asset_infos": [info("uaaa"), info("ubbb")]}}), &[], own("factory"));
    let permissioned = w.q(&e.at["factory"], json!({"config": {}})).unwrap()["pair_configs"].as_array().unwrap().iter().any(|c| c["permissioned"] == json!(true));
    if permissioned {
        add("permissioned_pair", "factory", json!({"create_pair": {"pair_type": Kind::Trans.pair_type(), "asset_infos": [info("uusd"), info("uccc")], "init_params": null}}), &[], own("factory"));
    }
    // pools
    let share = json!({"enable_fee_share": {"fee_share_bps": 100, "fee_share_address": EVIL}});
    for (c, o) in [("xyk", "factory"), ("stable", "stable"), ("stable-free", "factory"), ("pcl", "pcl"), ("pcl-free", "factory")] {
        add("enable_fee_share", c, upd(share.clone()), &[], own(o));
        add("disable_fee_share", c, upd(json!("disable_fee_share")), &[], own(o));
    }
    for (c, o) in [("stable", "stable"), ("stable-free", "factory")] {
        add("start_changing_amp", c, upd(json!({"start_changing_amp": {"next_amp": 30, "next_amp_time": now + 200_000}})), &[], own(o));
        add("stop_changing_amp", c, upd(json!({"stop_changing_amp": {}})), &[], own(o));
    }
    for (c, o) in [("pcl", "pcl"), ("pcl-free", "factory")] {
        let cur = e.pools[c].config_params(w);
        add("promote", c, upd(json!({"promote": {"next_amp": "41", "next_gamma": cur["gamma"].as_str().unwrap_or("0.000145"), "future_time": now + 200_000}})), &[], own(o));
        add("stop", c, upd(json!({"stop_changing_amp_gamma": {}})), &[], own(o));
        for m in [
            json!({"mid_fee": "0.003"}),
            json!({"out_fee": "0.005"}),
            json!({"fee_gamma": "0.001"}),
            json!({"repeg_profit_threshold": "0.000003"}),
            json!({"min_price_scale_delta": "0.0002"}),
            json!({"ma_half_time": 900}),
        ] {
            let n = m.as_object().unwrap().keys().next().unwrap().clone();
            let mut all = json!({"mid_fee": null, "out_fee": null, "fee_gamma": null, "repeg_profit_threshold": null, "min_price_scale_delta": null, "ma_half_time": null});
            all[&n] = m[&n].clone();
            add(&n, c, upd(json!({"update": all})), &[], own(o));
        }
    }
    // pool owners proposing successors
    for (c, o) in [("stable", "stable"), ("stable-free", "factory"), ("pcl", "pcl"), ("pcl-free", "factory")] {
        add("propose", c, json!({"propose_new_owner": {"owner": "wasm1fresh", "expires_in": 100}}), &[], own(o));
        add("claim", c, json!({"claim_ownership": {}}), &[], vec![]);
    }
    for c in ["factory", "registry", "incentives", "vesting", "vesting-cw20", "maker", "fee_granter"] {
        add("propose", c, json!({"propose_new_owner": {"owner": "wasm1fresh", "expires_in": 100}}), &[], own(c));
        add("claim", c, json!({"claim_ownership": {}}), &[], vec![]);
    }
    for c in ["xyk", "tax", "trans", "pair_xastro", "pair_converter"] {
        add("propose", c, json!({"propose_new_owner": {"owner": EVIL, "expires_in": 100}}), &[], vec![]);
        add("claim", c, json!({"claim_ownership": {}}), &[], vec![]);
    }
    for c in ["trans", "pair_xastro", "pair_converter"] {
        add("enable_fee_share", c, upd(share.clone()), &[], vec![]);
    }
    // taxes
    add("tax_configs", "tax", upd(json!({"tax_configs": {"uaaa": {"tax_rate": "0.01", "tax_recipient": EVIL}}})), &[], own("taxadmin"));
    add("tax_admin", "tax", upd(json!({"tax_config_admin": EVIL})), &[], own("taxadmin"));
    add("tax_both", "tax", upd(json!({"tax_configs": {}, "tax_config_admin": EVIL})), &[], own("taxadmin"));
    // registry
    add("add", "registry", json!({"add": {"native_coins": [["uzzz", 6]]}}), &[], own("registry"));
    add("overwrite", "registry", json!({"add": {"native_coins": [["uaaa", 18]]}}), &[], own("registry"));
    add("remove", "registry", json!({"remove": {"native_coins": ["uaaa"]}}), &[], own("registry"));
    // fee granter
    let fg: Vec<String> = own("fee_granter").into_iter().chain(own("fgadmins")).collect();
    add("grant", "fee_granter", json!({"grant": {"grantee_contract": EVIL, "amount": "50"}}), &[coin(50, "untrn")], fg.clone());
    add("grant_bypass", "fee_granter", json!({"grant": {"grantee_contract": EVIL, "amount": "50", "bypass_amount_check": true}}), &[], fg.clone());
    add("revoke", "fee_granter", json!({"revoke": {"grantee_contract": "wasm1granted"}}), &[], fg.clone());
    add("transfer", "fee_granter", json!({"transfer_coins": {"amount": "60", "receiver": null}}), &[], fg.clone());
    add("transfer_to", "fee_granter", json!({"transfer_coins": {"amount": "60", "receiver": EVIL}}), &[], fg);
    add("add_admin", "fee_granter", json!({"update_admins": {"add": [EVIL]}}), &[], own("fee_granter"));
    let cur = w.q(&e.at["fee_granter"], json!({"config": {}})).unwrap()["admins"][0].clone();
    add("remove_admin", "fee_granter", json!({"update_admins": {"remove": [cur]}}), &[], own("fee_granter"));
    // incentives
    let oc: Vec<String> = own("incentives").into_iter().chain(own("controller")).collect();
    let og: Vec<String> = own("incentives").into_iter().chain(own("guardian")).collect();
    add("setup_pools", "incentives", json!({"setup_pools": {"pools": [[lp("tax"), "7"]]}}), &[], oc.clone());
    add("setup_no_pools", "incentives", json!({"setup_pools": {"pools": []}}), &[], oc);
    add("tokens_per_second", "incentives", json!({"set_tokens_per_second": {"amount": "5"}}), &[], own("incentives"));
    for bypass in [false, true] {
        for to in [ALICE, EVIL] {
            add(&format!("remove_reward {bypass} {to}"), "incentives", json!({"remove_reward_from_pool": {"lp_token": lp("xyk"), "reward": "uusd", "bypass_upcoming_schedules": bypass, "receiver": to}}), &[], own("incentives"));
        }
    }
    add("orphans", "incentives", json!({"claim_orphaned_rewards": {"limit": null, "receiver": EVIL}}), &[], own("incentives"));
    add("orphans_some", "incentives", json!({"claim_orphaned_rewards": {"limit": 1, "receiver": EVIL}}), &[], own("incentives"));
    for (n, m) in [
        ("vesting", json!({"vesting_contract": e.at["vesting-cw20"]})),
        ("controller", json!({"generator_controller": EVIL})),
        ("guardian", json!({"guardian": EVIL})),
        ("fee", json!({"incentivization_fee_info": {"fee_receiver": EVIL, "fee": {"denom": "uaaa", "amount": "5"}}})),
        ("gas", json!({"token_transfer_gas_limit": 400_000})),
        ("none", json!({})),
    ] {
        add(&format!("config {n}"), "incentives", json!({"update_config": m}), &[], own("incentives"));
    }
    add("block", "incentives", json!({"update_blocked_tokenslist": {"add": [info("uccc")]}}), &[], og);
    add("deactivate", "incentives", json!({"deactivate_pool": {"lp_token": lp("xyk")}}), &[], me("factory"));
    // vesting
    let acc = |who: &str| json!({"register_vesting_accounts": {"vesting_accounts": [{"address": who, "schedules": [{"start_point": {"time": now - 10, "amount": "1000"}}]}]}});
    add("register", "vesting", acc(EVIL), &[coin(1000, ASTRO)], own("vesting"));
    for c in ["vesting", "vesting-cw20"] {
        add("withdraw", c, json!({"withdraw_from_active_schedule": {"account": ALICE, "recipient": null, "withdraw_amount": "100"}}), &[], if c == "vesting" { own("vesting") } else { own("vesting-cw20") });
        add("withdraw_to", c, json!({"withdraw_from_active_schedule": {"account": ALICE, "recipient": EVIL, "withdraw_amount": "100"}}), &[], own(c));
        add("direct_register", "vesting-cw20", acc(EVIL), &[], vec![]);
    }
    // maker
    for (n, m) in [
        ("factory", json!({"factory_contract": e.at["factory"]})),
        ("staking", json!({"staking_contract": EVIL})),
        ("governance", json!({"governance_contract": {"set": EVIL}})),
        ("percent", json!({"governance_percent": "30"})),
        ("default_bridge", json!({"basic_asset": info("uaaa")})),
        ("spread", json!({"max_spread": "0.2"})),
        ("second", json!({"second_receiver_params": {"second_fee_receiver": EVIL, "second_receiver_cut": "30"}})),
        ("cooldown", json!({"collect_cooldown": 120})),
        ("dev_fund", json!({"dev_fund_config": {"set": {"address": EVIL, "share": "0.2", "asset_info": info("uaaa")}}})),
        ("none", json!({})),
    ] {
        add(&format!("config {n}"), "maker", json!({"update_config": m}), &[], own("maker"));
    }
    add("add_bridge", "maker", json!({"update_bridges": {"add": [[info("uccc"), info("uaaa")]]}}), &[], own("maker"));
    add("no_bridge", "maker", json!({"update_bridges": {}}), &[], own("maker"));
    add("enable_rewards", "maker", json!({"enable_rewards": {"blocks": 5}}), &[], own("maker"));
    add("seize_config", "maker", json!({"update_seize_config": {"receiver": EVIL, "seizable_assets": [info("uaaa")]}}), &[], own("maker"));
    add("swap_bridges", "maker", json!({"swap_bridge_assets": {"assets": [info("uaaa")], "depth": 0}}), &[], me("maker"));
    add("swap_no_bridges", "maker", json!({"swap_bridge_assets": {"assets": [], "depth": 0}}), &[], me("maker"));
    add("distribute", "maker", json!({"distribute_astro": {}}), &[], me("maker"));
    // router
    for single in [true, false] {
        for to in [Value::Null, json!(EVIL)] {
            add(&format!("inner {single} {to}"), "router", json!({"execute_swap_operation": {"operation": {"astro_swap": {"offer_asset_info": info("uaaa"), "ask_asset_info": info("ubbb")}}, "to": to, "max_spread": "0.5", "single": single}}), &[coin(1000, "uaaa")], me("router"));
        }
    }
    // tokens
    add("mint", "xastro_token", json!({"mint": {"recipient": EVIL, "amount": "5"}}), &[], own("minter"));
    add("marketing", "xastro_token", json!({"update_marketing": {"project": "evil", "description": null, "marketing": EVIL}}), &[], vec![GUARDIAN.into()]);
    add("logo", "xastro_token", json!({"upload_logo": {"url": "evil"}}), &[], vec![GUARDIAN.into()]);
    add("transfer_from", "xastro_token", json!({"transfer_from": {"owner": ALICE, "recipient": EVIL, "amount": "5"}}), &[], vec![]);
    add("send_from", "xastro_token", json!({"send_from": {"owner": ALICE, "contract": e.at["governance"], "amount": "5", "msg": b64(&json!({}))}}), &[], vec![]);
    add("burn_from", "xastro_token", json!({"burn_from": {"owner": ALICE, "amount": "5"}}), &[], vec![]);
    // whitelist
    let send = |to: &str| json!({"execute": {"msgs": [{"bank": {"send": {"to_address": to, "amount": [{"denom": "uaaa", "amount": "5"}]}}}]}});
    add("execute", "whitelist", send(EVIL), &[], own("whitelist"));
    add("freeze", "whitelist", json!({"freeze": {}}), &[], own("whitelist"));
    add("admins", "whitelist", json!({"update_admins": {"admins": [EVIL]}}), &[], own("whitelist"));
    // messages of others' positions
    for (n, c) in [("withdraw", "incentives")] {
        add(n, c, json!({"withdraw": {"lp_token": lp("stable"), "amount": "5"}}), &[], vec![ALICE.into()]);
    }
    for c in ["vesting-cw20"] {
        add("claim_vested", c, json!({"claim": {"recipient": null, "amount": null}}), &[], vec![ALICE.into()]);
    }
    v
}
/// hook messages that every token could forward
fn hooks(e: &Eco) -> Vec<Value> {
    let lp = &e.pools["xyk"].lp;
    let mut v: Vec<Value> = vec![
        json!({"swap": {"ask_asset_info": null, "belief_price": null, "max_spread": "0.5", "to": EVIL}}),
        json!({"swap": {"ask_asset_info": null, "belief_price": null, "max_spread": "0.5", "to": null}}),
        json!({"swap": {"ask_asset_info": native("uaaa").info(), "belief_price": null, "max_spread": "0.5", "to": EVIL}}),
        json!({"swap": {"ask_asset_info": native("ubbb").info(), "belief_price": null, "max_spread": "0.5", "to": EVIL}}),
        json!({"withdraw_liquidity": {"assets": [], "min_assets_to_receive": null}}),
        json!({"withdraw_liquidity": {}}),
        json!({"deposit": {"recipient": EVIL}}),
        json!({"deposit": {"recipient": null}}),
        json!({"deposit_for": EVIL}),
        json!({"enter": {}}),
        json!({"leave": {}}),
        json!({"receiver": EVIL}),
        json!({"receiver": null}),
        json!({"convert": {"receiver": EVIL}}),
        json!({"register_vesting_accounts": {"vesting_accounts": [{"address": EVIL, "schedules": [{"start_point": {"time": e.w.time - 10, "amount": "1000"}}]}]}}),
        json!({}),
        Value::Null,
    ];
    for (a, b) in [("uaaa", "ubbb"), ("uaaa", ASTRO), ("uusd", "uusdt")] {
        v.push(json!({"execute_swap_operations": {"operations": [{"astro_swap": {"offer_asset_info": native(a).info(), "ask_asset_info": native(b).info()}}], "minimum_receive": null, "to": EVIL, "max_spread": "0.5"}}));
    }
    v.push(json!({"incentivize": {"lp_token": lp, "schedule": {"reward": native("uusd").asset(1_000_000), "duration_periods": 1}}}));
    v
}
const VARIANTS: [&str; 3] = ["first", "reassigned", "split"];
fn variant(n: &str) -> (Eco, Roles) {
    let mut e = eco();
    let mut r = base_roles(&e);
    match n {
        "reassigned" => reassign(&mut e, &mut r),
        "split" => split(&mut e, &mut r),
        _ => (),
    }
    (e, r)
}
fn actors(e: &Eco) -> Vec<String> {
    let people = [
        OWNER, NEWOWNER, ALICE, BOB, SEED, GUARDIAN, NEWGUARD, CONTROLLER, NEWCTRL, FGADMIN, NEWFG, TAXADM, NEWTAX, FEE, SHARE, TAXR, POOLOWNER, WLADMIN, NEWWL, MINTER, EVIL,
        TF_MODULE,
    ];
    people.iter().map(|s| s.to_string()).chain(e.at.values().cloned()).collect::<BTreeSet<_>>().into_iter().collect()
}
fn full(w: &World) -> u128 {
    let mut h = H::new();
    w.fp(&mut h, true);
    h.done()
}
// ------------------------------------------------------------ histories of appointments
const P: [&str; 2] = ["wasm1person0", "wasm1person1"];
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Guardian { who: String, to: String },
    Controller { who: String, to: String },
    Both { who: String, guardian: String, controller: String },
    Tax { who: String, to: String },
    Admins { who: String, add: Vec<String>, rem: Vec<String> },
}
#[derive(Clone)]
struct HS {
    w: World,
    g: String,
    c: Option<String>,
    t: String,
    a: BTreeSet<String>,
}
struct Hist {
    e: Eco,
}
fn cast() -> Vec<String> {
    [OWNER, GUARDIAN, CONTROLLER, TAXADM, FGADMIN].iter().chain(P[..2].iter()).map(|s| s.to_string()).collect()
}
impl Model for Hist {
    type S = HS;
    type Op = Op;
    fn name(&self) -> String {
        "B04:appointments".into()
    }
    fn init(&self) -> HS {
        HS { w: self.e.w.clone(), g: GUARDIAN.into(), c: Some(CONTROLLER.into()), t: TAXADM.into(), a: [FGADMIN.to_string()].into() }
    }
    fn ops(&self, s: &HS, _: usize) -> Vec<Op> {
        let mut v = vec![];
        for to in P[..2].iter().map(|s| s.to_string()) {
            for who in [OWNER.to_string(), s.g.clone(), s.c.clone().unwrap(), P[0].into()].into_iter().collect::<BTreeSet<_>>() {
                v.push(Op::Guardian { who: who.clone(), to: to.clone() });
                v.push(Op::Controller { who: who.clone(), to: to.clone() });
            }
            v.push(Op::Both { who: OWNER.into(), guardian: to.clone(), controller: to.clone() });
            for who in [OWNER.to_string(), s.t.clone(), P[0].into(), P[1].into()].into_iter().collect::<BTreeSet<_>>() {
                v.push(Op::Tax { who, to: to.clone() });
            }
            for who in [OWNER.to_string(), to.clone(), FGADMIN.into()] {
                v.push(Op::Admins { who: who.clone(), add: vec![to.clone()], rem: vec![] });
                v.push(Op::Admins { who, add: vec![], rem: vec![to.clone()] });
            }
        }
        v.push(Op::Admins { who: OWNER.into(), add: vec![P[0].into()], rem: vec![FGADMIN.into()] });
        v.push(Op::Admins { who: OWNER.into(), add: vec![FGADMIN.into()], rem: vec![FGADMIN.into()] });
        v
    }
    fn step(&self, s: &HS, op: &Op, cov: &mut Cov) -> Result<Option<HS>, Viol> {
        let mut n = s.clone();
        let at = &self.e.at;
        // None: the statement leaves it open
        let (who, to, msg, ok) = match op {
            Op::Guardian { who, to } => {
                n.g = to.clone();
                (who, "incentives", json!({"update_config": {"guardian": to}}), Some(who == OWNER))
            }
            Op::Controller { who, to } => {
                n.c = Some(to.clone());
                (who, "incentives", json!({"update_config": {"generator_controller": to}}), Some(who == OWNER))
            }
            Op::Both { who, guardian, controller } => {
                n.g = guardian.clone();
                n.c = Some(controller.clone());
                (who, "incentives", json!({"update_config": {"guardian": guardian, "generator_controller": controller}}), Some(who == OWNER))
            }
            Op::Tax { who, to } => {
                n.t = to.clone();
                (who, "tax", json!({"update_config": {"params": b64(&json!({"tax_config_admin": to}))}}), Some(*who == s.t))
            }
            Op::Admins { who, add, rem } => {
                n.a.extend(add.iter().cloned());
                for r in rem {
                    n.a.remove(r);
                }
                let clean = add.iter().all(|x| !s.a.contains(x)) && rem.iter().all(|x| s.a.contains(x));
                (who, "fee_granter", json!({"update_admins": {"add": add, "remove": rem}}), if who != OWNER { Some(false) } else if clean && n.a.len() <= 2 { Some(true) } else { None })
            }
        };
        let r = n.w.exec_json(who, &at[to], msg, &[]);
        cov.hit(&format!("{}-{}", format!("{op:?}").split(' ').next().unwrap(), if r.is_ok() { "accepted" } else { "refused" }));
        if let Some(ok) = ok {
            vensure!(r.is_ok() == ok, "appointment", "{op:?}: {:?}", r.err());
        }
        if r.is_err() {
            return Ok(None);
        }
        if matches!(op, Op::Admins { add, rem, .. } if add.iter().any(|x| rem.contains(x))) {
            // named on both lists: either outcome
            let l = n.w.q(&at["fee_granter"], json!({"config": {}})).unwrap()["admins"].clone();
            n.a = l.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        }
        Ok(Some(n))
    }
    fn full(&self, s: &HS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.u128(self.fp(s));
        h.done()
    }
    fn fp(&self, s: &HS) -> u128 {
        let mut h = H::new();
        for x in [&s.g, s.c.as_ref().unwrap(), &s.t] {
            h.str(x);
        }
        for x in &s.a {
            h.str(x);
        }
        // what the contracts themselves report
        for c in ["incentives", "tax", "fee_granter"] {
            let mut q = s.w.q(&self.e.at[c], json!({"config": {}})).unwrap();
            if let Some(a) = q["admins"].as_array_mut() {
                a.sort_by_key(|x| x.to_string());
            }
            h.str(&q.to_string());
        }
        h.done()
    }
    fn check(&self, s: &HS, cov: &mut Cov) -> Result<(), Viol> {
        let at = &self.e.at;
        let lp = &self.e.pools["tax"].lp;
        let c = s.c.clone().unwrap();
        let o = OWNER.to_string();
        let fg: Vec<String> = s.a.iter().cloned().chain([o.clone()]).collect();
        for (to, msg, funds, ok) in [
            ("incentives", json!({"update_blocked_tokenslist": {"add": [native("uccc").info()]}}), vec![], vec![o.clone(), s.g.clone()]),
            ("incentives", json!({"setup_pools": {"pools": [[lp, "7"]]}}), vec![], vec![o.clone(), c]),
            ("incentives", json!({"set_tokens_per_second": {"amount": "5"}}), vec![], vec![o.clone()]),
            ("tax", json!({"update_config": {"params": b64(&json!({"tax_configs": {}}))}}), vec![], vec![s.t.clone()]),
            ("fee_granter", json!({"transfer_coins": {"amount": "1"}}), vec![], fg.clone()),
            ("fee_granter", json!({"revoke": {"grantee_contract": "wasm1granted"}}), vec![], fg.clone()),
            ("fee_granter", json!({"grant": {"grantee_contract": EVIL, "amount": "5", "bypass_amount_check": true}}), vec![], fg),
        ] {
            for who in cast() {
                let r = s.w.clone().exec_json(&who, &at[to], msg.clone(), &funds);
                cov.hit(if r.is_ok() { "power-accepted" } else { "power-refused" });
                vensure!(r.is_ok() == ok.contains(&who), "power", "{msg} of {who}, allowed to {ok:?}: {:?}", r.err());
            }
        }
        Ok(())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    variant: String,
    who: String,
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B04",
        scenarios: |thorough| {
            let mut v = vec![];
            for n in VARIANTS {
                let (e, r) = variant(n);
                let cases: Vec<Case> = actors(&e).into_iter().map(|who| Case { variant: n.into(), who }).collect();
                let ps = probes(&e, &r);
                let e1 = e.clone();
                v.push(grid(&format!("B04:roles:{n}"), cases.clone(), move |c: &Case, cov| {
                    for p in &ps {
                        let mut w = e1.w.clone();
                        for f in &p.funds {
                            w.fund(&c.who, &f.denom, f.amount.u128());
                        }
                        let before = full(&w);
                        let r = w.exec_json(&c.who, &p.to, p.msg.clone(), &p.funds);
                        cov.hit(&format!("{}-{}", p.name, if r.is_ok() { "accepted" } else { "refused" }));
                        let ok = p.allowed.contains(&c.who);
                        vensure!(r.is_ok() == ok, &format!("role:{}", p.name), "{} sent by {}, allowed to {:?}: {:?}", p.msg, c.who, p.allowed, r.err());
                        vensure!(r.is_ok() || full(&w) == before, "trace", "{} refused to {} left a trace", p.msg, c.who);
                    }
                    Ok(())
                }));
                if n == "split" && !thorough {
                    continue;
                }
                // forged token receipts
                let hs = hooks(&e);
                let tok: BTreeSet<String> = [e.at["cw20"].clone(), e.at["xastro_token"].clone()].into_iter().collect();
                let mut e2 = e.clone();
                let evil = new_cw20(&mut e2.w, "Evil", 6, &[(EVIL, 1 << 80), (OWNER, 1 << 80), (ALICE, 1 << 80), (NEWOWNER, 1 << 80)]);
                let senders: Vec<String> = if thorough { actors(&e2) } else { vec![r.of("vesting")[0].clone(), ALICE.into(), e2.at["incentives"].clone()] };
                v.push(grid(&format!("B04:receipts:{n}"), cases, move |c: &Case, cov| {
                    if tok.contains(&c.who) {
                        return Ok(());
                    }
                    for (name, to) in &e2.at {
                        // a stand-in, and a contract that takes no messages
                        if *name == "governance" || *name == "tracker" {
                            continue;
                        }
                        for h in &hs {
                            for s in &senders {
                                let mut w = e2.w.clone();
                                let before = balances(&w);
                                let fp = full(&w);
                                let r = w.exec_json(&c.who, to, json!({"receive": {"sender": s, "amount": "1000", "msg": b64(h)}}), &[]);
                                cov.hit(if r.is_ok() { "receipt-accepted" } else { "receipt-refused" });
                                if r.is_ok() {
                                    vensure!(diff(&before, &balances(&w)).is_empty() && full(&w) == fp, &format!("receipt:{name}"), "{} made {name} accept {h} in the name of {s}", c.who);
                                }
                            }
                        }
                    }
                    // a worthless token of the attacker's own
                    if [EVIL, OWNER, ALICE, NEWOWNER].contains(&c.who.as_str()) {
                        for (name, to) in &e2.at {
                            if *name == "governance" || *name == "tracker" {
                                continue;
                            }
                            for h in &hs {
                                let mut w = e2.w.clone();
                                let r = w.exec_json(&c.who, &evil, json!({"send": {"contract": to, "amount": "1000", "msg": b64(h)}}), &[]);
                                cov.hit(if r.is_ok() { "worthless-accepted" } else { "worthless-refused" });
                                vensure!(r.is_err(), &format!("worthless:{name}"), "{name} accepted {h} with a token of {}", c.who);
                            }
                        }
                    }
                    Ok(())
                }));
            }
            v.push(bounded(Hist { e: eco() }, if thorough { 12 } else { 7 }));
            v
        },
        assumptions: &["the tokens a contract was configured with are honest; roles are those of the published documentation"],
    }]
}
