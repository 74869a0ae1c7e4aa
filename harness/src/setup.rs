//! A small ecosystem: every contract of the repository instantiated together.
use crate::codes::*;
use crate::pool::*;
use crate::world::*;
use serde_json::{json, Value};

pub const ASTRO: &str = "uastro";
pub const GUARDIAN: &str = "wasm1guardian";
pub const FGADMIN: &str = "wasm1fgadmin";
pub const EPOCH0: u64 = 1_696_809_600;
pub const WEEK: u64 = 604_800;

pub fn native(d: &str) -> Tok {
    Tok::N(d.to_string())
}
/// vesting contract for a token
pub fn new_vesting(w: &mut World, t: &Tok) -> String {
    w.init(OWNER, VESTING, &json!({"owner": OWNER, "vesting_token": t.info()}), &[]).unwrap()
}
pub fn new_staking(w: &mut World, denom: &str) -> String {
    w.init(OWNER, STAKING, &json!({"deposit_token_denom": denom, "tracking_admin": OWNER, "tracking_code_id": TRACKER_V1, "token_factory_addr": TF_MODULE}), &[]).unwrap()
}
pub fn new_incentives(w: &mut World, factory: &str, astro: &Tok, vesting: &str, fee: Option<(u128, &str)>) -> String {
    w.init(
        OWNER,
        INCENTIVES,
        &json!({"owner": OWNER, "factory": factory, "astro_token": astro.info(), "vesting_contract": vesting, "guardian": GUARDIAN,
            "incentivization_fee_info": fee.map(|(v, d)| json!({"fee_receiver": FEE, "fee": {"denom": d, "amount": v.to_string()}}))}),
        &[],
    )
    .unwrap()
}
pub fn new_maker(w: &mut World, factory: &str, astro: &Tok, extra: Value) -> Result<String, String> {
    let mut m = json!({"owner": OWNER, "factory_contract": factory, "astro_token": astro.info()});
    if let Value::Object(e) = extra {
        for (k, v) in e {
            m[k] = v;
        }
    }
    w.init(OWNER, MAKER, &m, &[])
}
pub fn new_fee_granter(w: &mut World) -> String {
    w.init(OWNER, FEE_GRANTER, &json!({"owner": OWNER, "admins": [FGADMIN], "gas_denom": "untrn"}), &[]).unwrap()
}
/// the incentives contract with a vesting contract that has plenty of the protocol reward
pub fn incentives_with_vesting(w: &mut World, factory: &str, amount: u128) -> (String, String) {
    let v = new_vesting(w, &native(ASTRO));
    let i = new_incentives(w, factory, &native(ASTRO), &v, None);
    w.fund(OWNER, ASTRO, amount);
    w.exec_json(
        OWNER,
        &v,
        json!({"register_vesting_accounts": {"vesting_accounts": [{"address": i, "schedules": [{"start_point": {"time": 1_600_000_000u64, "amount": amount.to_string()}}]}]}}),
        &[coin(amount, ASTRO)],
    )
    .unwrap();
    w.exec_json(OWNER, factory, json!({"update_config": {"generator_address": i}}), &[]).unwrap();
    (i, v)
}

pub const POOLOWNER: &str = "wasm1poolowner";
pub const CONTROLLER: &str = "wasm1controller";
pub const MINTER: &str = "wasm1minter";
pub const WLADMIN: &str = "wasm1wladmin";
pub const OLDASTRO: &str = "ibc/OLDASTRO";
/// one of everything, wired together and in use
#[derive(Clone)]
pub struct Eco {
    pub w: World,
    pub at: std::collections::BTreeMap<&'static str, String>,
    pub pools: std::collections::BTreeMap<&'static str, Pool>,
}
pub const ECO_TIME: u64 = EPOCH0 + 10 * WEEK + 1000;
pub fn eco() -> Eco {
    let mut w = World::new();
    w.time = ECO_TIME;
    w.height = 10_000;
    let users = [SEED, ALICE, BOB, OWNER];
    let nat = ["uaaa", "ubbb", "uccc", "uusd", "uusdt", ASTRO, OLDASTRO];
    for u in users {
        for d in nat {
            w.fund(u, d, 1 << 90);
        }
    }
    let cw = new_cw20(&mut w, "Token", 6, &users.map(|u| (u, 1 << 90)));
    let reg = new_registry(&mut w, &nat.iter().map(|d| (d.to_string(), 6u8)).collect::<Vec<_>>());
    let f = new_factory(&mut w, &reg, KINDS.iter().map(|k| pair_config(*k, 30, 3333)).collect(), None, None);
    let (inc, vest) = incentives_with_vesting(&mut w, &f, 1 << 80);
    w.exec_json(OWNER, &inc, json!({"update_config": {"generator_controller": CONTROLLER}}), &[]).unwrap();
    let mut pools = std::collections::BTreeMap::new();
    for (name, kind, t0, t1) in [
        ("xyk", Kind::Xyk, native("uaaa"), native("ubbb")),
        ("tax", Kind::Tax, native("uaaa"), native("uccc")),
        ("stable", Kind::Stable, native("uaaa"), native(ASTRO)),
        ("stable-free", Kind::Stable, native("uccc"), native(ASTRO)),
        ("pcl-free", Kind::Pcl, native("ubbb"), native(ASTRO)),
        ("pcl", Kind::Pcl, native("ubbb"), Tok::T(cw.clone())),
        ("trans", Kind::Trans, native("uusd"), native("uusdt")),
    ] {
        let mut cfg = Cfg::new(kind);
        cfg.share = 0;
        cfg.seed = vec![1_000_000_000; 2];
        let mut p;
        if name == "stable-free" {
            let t = w
                .exec_json(OWNER, &f, json!({"create_pair": {"pair_type": kind.pair_type(), "asset_infos": [t0.info(), t1.info()], "init_params": b64(&json!({"amp": 20}))}}), &[])
                .unwrap();
            let addr = t.instantiated.iter().find(|a| w.contracts[a.as_str()].code == STABLE).unwrap().clone();
            let lp = w.q(&addr, json!({"pair": {}})).unwrap()["liquidity_token"].as_str().unwrap().to_string();
            p = Pool { kind, addr, lp, toks: vec![t0, t1], factory: f.clone(), incentives: Some(inc.clone()), dec: vec![6, 6], cfg: std::sync::Arc::new(cfg) };
            p.provide(&mut w, SEED, &[1_000_000_000; 2], json!({})).unwrap();
        } else {
            p = create_pool(&mut w, &cfg, &f, Some(inc.clone()), &[t0, t1]);
        }
        p.incentives = Some(inc.clone());
        // pools with an owner of their own
        if name == "pcl" || name == "stable" {
            w.exec_json(OWNER, &p.addr, json!({"propose_new_owner": {"owner": POOLOWNER, "expires_in": 100}}), &[]).unwrap();
            w.exec_json(POOLOWNER, &p.addr, json!({"claim_ownership": {}}), &[]).unwrap();
        }
        pools.insert(name, p);
    }
    w.advance(10, 1);
    for u in [ALICE, BOB] {
        for p in pools.values() {
            p.provide(&mut w, u, &[50_000_000; 2], json!({})).unwrap();
        }
    }
    w.advance(10, 1);
    let lp = |n: &str| pools[n].lp.clone();
    w.exec_json(OWNER, &inc, json!({"setup_pools": {"pools": [[lp("xyk"), "1"], [lp("stable"), "2"], [lp("tax"), "1"]]}}), &[]).unwrap();
    w.exec_json(OWNER, &inc, json!({"set_tokens_per_second": {"amount": "1000"}}), &[]).unwrap();
    for u in [ALICE, BOB] {
        w.exec_json(u, &inc, json!({"deposit": {"recipient": null}}), &[coin(1_000_000, &lp("xyk"))]).unwrap();
    }
    // outside rewards: one with stakers, one whose beginning nobody earns
    for (n, r) in [("xyk", "uusd"), ("xyk", "uusdt"), ("stable", "uusd"), ("pcl", "uusdt")] {
        w.exec_json(BOB, &inc, json!({"incentivize": {"lp_token": lp(n), "schedule": {"reward": native(r).asset(100_000_000), "duration_periods": 1}}}), &[coin(100_000_000, r)]).unwrap();
    }
    w.exec_json(BOB, &inc, json!({"incentivize": {"lp_token": lp("xyk"), "schedule": {"reward": Tok::T(cw.clone()).asset(100_000_000), "duration_periods": 1}}}), &[]).unwrap_err();
    w.exec_json(BOB, &cw, json!({"increase_allowance": {"spender": inc, "amount": "100000000"}}), &[]).unwrap();
    w.exec_json(BOB, &inc, json!({"incentivize": {"lp_token": lp("xyk"), "schedule": {"reward": Tok::T(cw.clone()).asset(100_000_000), "duration_periods": 1}}}), &[]).unwrap();
    let st = new_staking(&mut w, ASTRO);
    let x = w.q(&st, json!({"config": {}})).unwrap()["xastro_denom"].as_str().unwrap().to_string();
    w.exec_json(ALICE, &st, json!({"enter": {"receiver": null}}), &[coin(1_000_000, ASTRO)]).unwrap();
    let gov = w.init(OWNER, SINK, &json!({}), &[]).unwrap();
    let maker = new_maker(&mut w, &f, &native(ASTRO), json!({"staking_contract": st, "governance_contract": gov, "governance_percent": "10"})).unwrap();
    w.exec_json(OWNER, &maker, json!({"update_config": {"collect_cooldown": 60}}), &[]).unwrap();
    w.exec_json(OWNER, &maker, json!({"update_seize_config": {"receiver": FEE, "seizable_assets": [native("uusd").info()]}}), &[]).unwrap();
    w.exec_json(OWNER, &f, json!({"update_config": {"fee_address": maker}}), &[]).unwrap();
    for d in ["uaaa", "uccc", "uusd", ASTRO] {
        w.send(SEED, &maker, d, 5_000_000).unwrap();
    }
    let router = w.init(OWNER, ROUTER, &json!({"astroport_factory": f}), &[]).unwrap();
    let oracle = w.init(OWNER, ORACLE, &json!({"factory_contract": f, "asset_infos": [native("uaaa").info(), native("ubbb").info()]}), &[]).unwrap();
    let fg = new_fee_granter(&mut w);
    w.exec_json(OWNER, &fg, json!({"grant": {"grantee_contract": "wasm1granted", "amount": "100"}}), &[coin(100, "untrn")]).unwrap_err();
    w.fund(OWNER, "untrn", 1_000_000);
    w.exec_json(OWNER, &fg, json!({"grant": {"grantee_contract": "wasm1granted", "amount": "100"}}), &[coin(100, "untrn")]).unwrap();
    let wl = w.init(OWNER, WHITELIST, &json!({"admins": [WLADMIN], "mutable": true}), &[]).unwrap();
    w.fund(&wl, "uaaa", 1000);
    let conv = w.init(OWNER, CONVERTER, &json!({"old_astro_asset_info": native(OLDASTRO).info(), "new_astro_denom": ASTRO, "outpost_burn_params": {"terra_burn_addr": "terra1burn", "old_astro_transfer_channel": "channel-7"}}), &[]).unwrap();
    w.fund(&conv, ASTRO, 1_000_000);
    let t = w.exec_json(OWNER, &f, json!({"create_pair": {"pair_type": {"xyk": {}}, "asset_infos": [native(OLDASTRO).info(), native(ASTRO).info()], "init_params": null}}), &[]).unwrap();
    let pconv = t.instantiated.iter().find(|a| w.contracts[a.as_str()].code == PAIR).unwrap().clone();
    w.poke(&pconv, b"contract_info", br#"{"contract":"astroport-pair","version":"1.3.3"}"#);
    w.migrate(&pconv, PAIR_CONVERTER, json!({"converter_contract": conv})).unwrap();
    let px = w
        .init(OWNER, PAIR_XASTRO, &json!({"pair_type": {"custom": "astroport-pair-xastro"}, "asset_infos": [native(ASTRO).info(), native(&x).info()],
            "token_code_id": 0, "factory_addr": f, "init_params": b64(&json!({"staking": st}))}), &[])
        .unwrap();
    let xt = w
        .init(OWNER, XASTRO_TOKEN, &json!({"name": "xAstro", "symbol": "xASTRO", "decimals": 6,
            "initial_balances": [{"address": ALICE, "amount": "1000"}, {"address": BOB, "amount": "1000"}], "mint": {"minter": MINTER, "cap": null},
            "marketing": {"project": "p", "description": "d", "marketing": GUARDIAN, "logo": null}}), &[])
        .unwrap();
    let hist = w.tf_new(ALICE, "hist", None);
    let tracker = w.init(OWNER, TRACKER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": hist, "track_over_seconds": true}), &[]).unwrap();
    w.tf_hook(&hist, &tracker);
    w.tf_mint(ALICE, &hist, 1000, ALICE).unwrap();
    // vesting of a cw20 token
    let cvest = new_vesting(&mut w, &Tok::T(cw.clone()));
    let acc = json!({"register_vesting_accounts": {"vesting_accounts": [{"address": ALICE, "schedules": [{"start_point": {"time": w.time - 10, "amount": "1000"}, "end_point": {"time": w.time + 100_000_000, "amount": "100000"}}]}]}});
    w.exec_json(OWNER, &cw, json!({"send": {"contract": cvest, "amount": "100000", "msg": b64(&acc)}}), &[]).unwrap();
    w.exec_json(OWNER, &vest, acc, &[coin(100_000, ASTRO)]).unwrap();
    w.advance(2 * WEEK, 1000);
    // the rewards nobody earned become known
    for n in ["stable", "pcl"] {
        w.exec_json(ALICE, &inc, json!({"deposit": {"recipient": null}}), &[coin(1_000_000, &lp(n))]).unwrap();
    }
    for (n, r) in [("xyk", "uusd"), ("xyk", "uusdt")] {
        w.exec_json(BOB, &inc, json!({"incentivize": {"lp_token": lp(n), "schedule": {"reward": native(r).asset(100_000_000), "duration_periods": 2}}}), &[coin(100_000_000, r)]).unwrap();
    }
    w.advance(100_000, 100);
    let at = [
        ("cw20", cw),
        ("registry", reg),
        ("factory", f),
        ("incentives", inc),
        ("vesting", vest),
        ("vesting-cw20", cvest),
        ("staking", st),
        ("maker", maker),
        ("governance", gov),
        ("router", router),
        ("oracle", oracle),
        ("fee_granter", fg),
        ("whitelist", wl),
        ("converter", conv),
        ("pair_converter", pconv),
        ("pair_xastro", px),
        ("xastro_token", xt),
        ("tracker", tracker),
    ]
    .into_iter()
    .chain(pools.iter().map(|(n, p)| (*n, p.addr.clone())))
    .collect();
    Eco { w, at, pools }
}
