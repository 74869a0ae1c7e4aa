//! Code ids: every contract of the repository (and a few stand-ins) as native entry points.
use crate::world::*;
use crate::{f_exec, f_query, f_reply, f_sudo};
use cosmwasm_std::{Binary, Env, MessageInfo, Querier, Storage};

pub const CW20: u64 = 1;
pub const PAIR: u64 = 2;
pub const STABLE: u64 = 3;
pub const PCL: u64 = 4;
pub const SALE_TAX: u64 = 5;
pub const TRANSMUTER: u64 = 6;
pub const FACTORY: u64 = 7;
pub const ROUTER: u64 = 8;
pub const TRACKER: u64 = 9;
pub const REGISTRY: u64 = 10;
pub const INCENTIVES: u64 = 11;
pub const VESTING: u64 = 12;
pub const STAKING: u64 = 13;
pub const MAKER: u64 = 14;
pub const XASTRO_TOKEN: u64 = 15;
pub const FEE_GRANTER: u64 = 16;
pub const ORACLE: u64 = 17;
pub const CONVERTER: u64 = 18;
pub const CONVERTER_NEUTRON: u64 = 19;
pub const PAIR_CONVERTER: u64 = 20;
pub const PAIR_XASTRO: u64 = 21;
pub const WHITELIST: u64 = 22;
/// the published version 1.0.0 of the tracker, which staking works with
pub const TRACKER_V1: u64 = 23;
/// the published astroport-pair 1.3.3 and astroport-vesting 1.3.1
pub const PAIR_V1: u64 = 24;
pub const VESTING_V1: u64 = 25;
/// the concentrated pool with the Duality order book
pub const DUALITY: u64 = 26;
/// accepts every message and keeps the funds
pub const SINK: u64 = 100;
/// a cw20 look-alike that refuses every execution while the key "broken" is stored
pub const BROKEN_CW20: u64 = 101;
/// a cw20 token that makes another call while it is being sent, when told to
pub const NESTING_CW20: u64 = 102;

pub fn exists(id: u64) -> bool {
    (1..=26).contains(&id) || id == SINK || id == BROKEN_CW20 || id == NESTING_CW20
}

fn sink_exec(_: &mut dyn Storage, _: &dyn Querier, _: Env, _: MessageInfo, _: &[u8]) -> Result<Resp, String> {
    Ok(Resp::default())
}
fn sink_query(_: &dyn Storage, _: &dyn Querier, _: Env, _: &[u8]) -> Result<Binary, String> {
    Ok(Binary(b"{}".to_vec()))
}
fn broken_exec(s: &mut dyn Storage, q: &dyn Querier, e: Env, i: MessageInfo, m: &[u8]) -> Result<Resp, String> {
    if s.get(b"broken").is_some() {
        return Err("token is broken".into());
    }
    if s.get(b"hog").is_some() {
        return Err(OUT_OF_GAS.into());
    }
    (code(CW20).execute)(s, q, e, i, m)
}
fn nesting_exec(s: &mut dyn Storage, q: &dyn Querier, e: Env, i: MessageInfo, m: &[u8]) -> Result<Resp, String> {
    let nested = s.get(b"nested");
    let mut r = (code(CW20).execute)(s, q, e, i, m)?;
    if let (Some(n), true) = (nested, m.starts_with(br#"{"send""#)) {
        let n: cosmwasm_std::WasmMsg = cosmwasm_std::from_json(n).map_err(|e| e.to_string())?;
        r.messages.insert(0, Sub { id: 0, msg: Msg::Std(n.into()), gas_limit: None, reply_on: cosmwasm_std::ReplyOn::Never });
    }
    Ok(r)
}
fn cw20_init(s: &mut dyn Storage, q: &dyn Querier, e: Env, i: MessageInfo, m: &[u8]) -> Result<Resp, String> {
    (code(CW20).instantiate)(s, q, e, i, m)
}
fn cw20_query(s: &dyn Storage, q: &dyn Querier, e: Env, m: &[u8]) -> Result<Binary, String> {
    (code(CW20).query)(s, q, e, m)
}

macro_rules! basic {
    ($n:literal, $i:path, $e:path, $q:path) => {
        Code { name: $n, instantiate: f_exec!($i), execute: f_exec!($e), query: f_query!($q), reply: None, sudo: None, migrate: None }
    };
}

pub fn code(id: u64) -> &'static Code {
    static CODES: std::sync::OnceLock<std::collections::BTreeMap<u64, Code>> = std::sync::OnceLock::new();
    CODES
        .get_or_init(|| {
            let mut m = std::collections::BTreeMap::new();
            m.insert(CW20, basic!("cw20", cw20_base::contract::instantiate, cw20_base::contract::execute, cw20_base::contract::query));
            m.insert(PAIR, Code {
                reply: Some(f_reply!(astroport_pair::contract::reply)),
                migrate: Some(f_sudo!(astroport_pair::contract::migrate)),
                ..basic!("pair", astroport_pair::contract::instantiate, astroport_pair::contract::execute, astroport_pair::contract::query)
            });
            m.insert(STABLE, Code {
                reply: Some(f_reply!(astroport_pair_stable::contract::reply)),
                migrate: Some(f_sudo!(astroport_pair_stable::contract::migrate)),
                ..basic!("pair_stable", astroport_pair_stable::contract::instantiate, astroport_pair_stable::contract::execute, astroport_pair_stable::contract::query)
            });
            m.insert(PCL, Code {
                reply: Some(f_reply!(astroport_pair_concentrated::contract::reply)),
                migrate: Some(f_sudo!(astroport_pair_concentrated::contract::migrate)),
                ..basic!("pair_concentrated", astroport_pair_concentrated::contract::instantiate, astroport_pair_concentrated::contract::execute, astroport_pair_concentrated::queries::query)
            });
            m.insert(SALE_TAX, Code {
                reply: Some(f_reply!(astroport_pair_xyk_sale_tax::contract::reply)),
                migrate: Some(f_sudo!(astroport_pair_xyk_sale_tax::contract::migrate)),
                ..basic!("pair_xyk_sale_tax", astroport_pair_xyk_sale_tax::contract::instantiate, astroport_pair_xyk_sale_tax::contract::execute, astroport_pair_xyk_sale_tax::contract::query)
            });
            m.insert(TRANSMUTER, Code {
                reply: Some(f_reply!(astroport_pair_transmuter::contract::reply)),
                migrate: Some(f_sudo!(astroport_pair_transmuter::contract::migrate)),
                ..basic!("pair_transmuter", astroport_pair_transmuter::contract::instantiate, astroport_pair_transmuter::contract::execute, astroport_pair_transmuter::queries::query)
            });
            m.insert(FACTORY, Code {
                reply: Some(f_reply!(astroport_factory::contract::reply)),
                migrate: Some(f_sudo!(astroport_factory::contract::migrate)),
                ..basic!("factory", astroport_factory::contract::instantiate, astroport_factory::contract::execute, astroport_factory::contract::query)
            });
            m.insert(ROUTER, Code {
                reply: Some(f_reply!(astroport_router::contract::reply)),
                migrate: Some(f_sudo!(astroport_router::contract::migrate)),
                ..basic!("router", astroport_router::contract::instantiate, astroport_router::contract::execute, astroport_router::contract::query)
            });
            m.insert(TRACKER, Code {
                sudo: Some(f_sudo!(astroport_tokenfactory_tracker::contract::sudo)),
                migrate: Some(f_sudo!(astroport_tokenfactory_tracker::contract::migrate)),
                execute: sink_exec,
                instantiate: f_exec!(astroport_tokenfactory_tracker::contract::instantiate),
                query: f_query!(astroport_tokenfactory_tracker::query::query),
                name: "tracker",
                reply: None,
            });
            m.insert(REGISTRY, Code {
                migrate: Some(f_sudo!(astroport_native_coin_registry::contract::migrate)),
                ..basic!("native_coin_registry", astroport_native_coin_registry::contract::instantiate, astroport_native_coin_registry::contract::execute, astroport_native_coin_registry::contract::query)
            });
            m.insert(INCENTIVES, Code {
                reply: Some(f_reply!(astroport_incentives::reply::reply)),
                migrate: Some(f_sudo!(astroport_incentives::migrate::migrate)),
                ..basic!("incentives", astroport_incentives::instantiate::instantiate, astroport_incentives::execute::execute, astroport_incentives::query::query)
            });
            m.insert(VESTING, Code {
                migrate: Some(f_sudo!(astroport_vesting::contract::migrate)),
                ..basic!("vesting", astroport_vesting::contract::instantiate, astroport_vesting::contract::execute, astroport_vesting::contract::query)
            });
            m.insert(STAKING, Code {
                reply: Some(f_reply!(astroport_staking::contract::reply)),
                migrate: Some(f_sudo!(astroport_staking::migrate::migrate)),
                ..basic!("staking", astroport_staking::contract::instantiate, astroport_staking::contract::execute, astroport_staking::contract::query)
            });
            m.insert(MAKER, Code {
                reply: Some(f_reply!(astroport_maker::reply::reply)),
                migrate: Some(f_sudo!(astroport_maker::contract::migrate)),
                ..basic!("maker", astroport_maker::contract::instantiate, astroport_maker::contract::execute, astroport_maker::contract::query)
            });
            m.insert(XASTRO_TOKEN, Code {
                migrate: Some(f_sudo!(astroport_xastro_token::contract::migrate)),
                ..basic!("xastro_token", astroport_xastro_token::contract::instantiate, astroport_xastro_token::contract::execute, astroport_xastro_token::contract::query)
            });
            m.insert(FEE_GRANTER, basic!("fee_granter", astroport_fee_granter::contract::instantiate, astroport_fee_granter::contract::execute, astroport_fee_granter::query::query));
            m.insert(ORACLE, Code {
                migrate: Some(f_sudo!(astroport_oracle::contract::migrate)),
                ..basic!("oracle", astroport_oracle::contract::instantiate, astroport_oracle::contract::execute, astroport_oracle::contract::query)
            });
            m.insert(CONVERTER, basic!("astro_converter", astro_token_converter::contract::instantiate, astro_token_converter::contract::execute, astro_token_converter::contract::query));
            m.insert(CONVERTER_NEUTRON, basic!("astro_converter_neutron", astro_token_converter_neutron::contract::instantiate, astro_token_converter_neutron::contract::execute, astro_token_converter_neutron::contract::query));
            m.insert(PAIR_CONVERTER, Code {
                migrate: Some(f_sudo!(astroport_pair_converter::contract::migrate)),
                ..basic!("pair_astro_converter", astroport_pair_converter::contract::instantiate, astroport_pair_converter::contract::execute, astroport_pair_converter::queries::query)
            });
            m.insert(PAIR_XASTRO, basic!("pair_xastro", astroport_pair_xastro::contract::instantiate, astroport_pair_xastro::contract::execute, astroport_pair_xastro::queries::query));
            m.insert(WHITELIST, basic!("whitelist", astroport_whitelist::contract::instantiate, astroport_whitelist::contract::execute, astroport_whitelist::contract::query));
            m.insert(TRACKER_V1, Code {
                sudo: Some(f_sudo!(tracker_v1::contract::sudo)),
                migrate: None,
                execute: sink_exec,
                instantiate: f_exec!(tracker_v1::contract::instantiate),
                query: f_query!(tracker_v1::query::query),
                name: "tracker-v1",
                reply: None,
            });
            m.insert(PAIR_V1, Code {
                reply: Some(f_reply!(pair_v1::contract::reply)),
                ..basic!("pair-v1", pair_v1::contract::instantiate, pair_v1::contract::execute, pair_v1::contract::query)
            });
            m.insert(VESTING_V1, basic!("vesting-v1", vesting_v1::contract::instantiate, vesting_v1::contract::execute, vesting_v1::contract::query));
            m.insert(DUALITY, Code {
                reply: Some(f_reply!(astroport_pair_duality::reply::reply)),
                migrate: Some(f_sudo!(astroport_pair_duality::migrate::migrate)),
                ..basic!("pair_concentrated_duality", astroport_pair_duality::instantiate::instantiate, astroport_pair_duality::execute::execute, astroport_pair_duality::queries::query)
            });
            m.insert(SINK, Code { name: "sink", instantiate: sink_exec, execute: sink_exec, query: sink_query, reply: None, sudo: None, migrate: None });
            m.insert(BROKEN_CW20, Code { name: "broken", instantiate: cw20_init, execute: broken_exec, query: cw20_query, reply: None, sudo: None, migrate: None });
            m.insert(NESTING_CW20, Code { name: "nesting", instantiate: cw20_init, execute: nesting_exec, query: cw20_query, reply: None, sudo: None, migrate: None });
            m
        })
        .get(&id)
        .unwrap()
}
