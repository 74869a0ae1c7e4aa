//! The order-book module of the modelled chain (Neutron's Duality), at exact prices.
//! Resting orders are kept with their escrow; a placed order first takes whatever resting orders
//! satisfy its limit, best price first, and rests with the remainder. All rounding favours the resting side.
use crate::world::*;
use cosmwasm_std::{Uint256, Uint512};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::Arc;

pub const DEX: &str = "wasm1dexmodule";
const UNIT: u128 = 1_000_000_000_000_000_000_000_000_000;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Order {
    pub owner: String,
    pub tin: String,
    pub tout: String,
    /// units of tout per unit of tin, times 1e27
    pub price: Uint256,
    /// units of tin not sold yet
    pub left: u128,
    /// units of tin the order was placed with
    pub size: u128,
    /// proceeds, in tout
    pub out: u128,
}
#[derive(Clone, Default, Debug)]
pub struct Dex {
    pub orders: BTreeMap<String, Order>,
    pub seq: u32,
    /// report a side of a cancelled order that is zero as an absent coin
    pub omit_zero: bool,
    /// (owner, token sold) -> sold, received
    pub sold: BTreeMap<(String, String), (u128, u128)>,
}
fn up(a: u128, p: Uint256, d: Uint256) -> Result<u128, String> {
    let (x, d) = (Uint512::from(a) * Uint512::from(p), Uint512::from(d));
    let r = x / d + if (x % d).is_zero() { Uint512::zero() } else { Uint512::one() };
    r.to_string().parse::<u128>().map_err(|_| "dex: too large".into())
}
fn down(a: u128, p: Uint256, d: Uint256) -> Result<u128, String> {
    (Uint512::from(a) * Uint512::from(p) / Uint512::from(d)).to_string().parse::<u128>().map_err(|_| "dex: too large".into())
}
impl Order {
    /// what a taker of `give` units pays
    pub fn cost(&self, give: u128) -> Result<u128, String> {
        up(give, self.price, Uint256::from(UNIT))
    }
}
impl World {
    fn dex_move(&mut self, ctx: &mut Ctx, from: &str, to: &str, d: &str, v: u128) -> Result<(), String> {
        if v == 0 {
            return Ok(());
        }
        self.transfer(ctx, from, to, &[(d.to_string(), v)])
    }
    fn dex_note(&mut self, who: &str, tin: &str, sold: u128, got: u128) {
        let e = Arc::make_mut(&mut self.dex).sold.entry((who.into(), tin.into())).or_default();
        e.0 += sold;
        e.1 += got;
    }
    /// a taker buys `give` units of the order's token
    fn dex_take(&mut self, ctx: &mut Ctx, key: &str, taker: &str, give: u128) -> Result<u128, String> {
        let o = self.dex.orders.get(key).cloned().ok_or("dex: no such order")?;
        if give == 0 || give > o.left {
            return Err("dex: amount".into());
        }
        let cost = o.cost(give)?;
        self.dex_move(ctx, taker, DEX, &o.tout, cost)?;
        self.dex_move(ctx, DEX, taker, &o.tin, give)?;
        let m = Arc::make_mut(&mut self.dex).orders.get_mut(key).unwrap();
        m.left -= give;
        m.out += cost;
        self.dex_note(&o.owner, &o.tin, give, cost);
        Ok(cost)
    }
    pub fn dex_fill(&mut self, key: &str, taker: &str, give: u128) -> Result<u128, String> {
        let mut ctx = Ctx::default();
        self.tx(&mut ctx, |w, x| w.dex_take(x, key, taker, give))
    }
    pub fn dex_place(&mut self, who: &str, tin: &str, tout: &str, v: u128, price: &str) -> Result<(), String> {
        let m = serde_json::json!({"creator": who, "receiver": who, "token_in": tin, "token_out": tout, "amount_in": v.to_string(), "order_type": 0,
            "limit_sell_price": price, "tick_index_in_to_out": 0});
        let mut ctx = Ctx::default();
        self.tx(&mut ctx, |w, x| w.dex_msg(x, who, "/neutron.dex.MsgPlaceLimitOrder", m.to_string().as_bytes()).map(|_| ()))
    }
    pub fn dex_cancel(&mut self, who: &str, key: &str) -> Result<(), String> {
        let m = serde_json::json!({"creator": who, "tranche_key": key});
        let mut ctx = Ctx::default();
        self.tx(&mut ctx, |w, x| w.dex_msg(x, who, "/neutron.dex.MsgCancelLimitOrder", m.to_string().as_bytes()).map(|_| ()))
    }
    pub fn dex_orders(&self, who: &str) -> Vec<(String, Order)> {
        self.dex.orders.iter().filter(|(_, o)| o.owner == who).map(|(k, o)| (k.clone(), o.clone())).collect()
    }
    pub fn dex_msg(&mut self, ctx: &mut Ctx, from: &str, url: &str, val: &[u8]) -> Result<(), String> {
        let m: serde_json::Value = serde_json::from_slice(val).map_err(|e| e.to_string())?;
        let s = |k: &str| m[k].as_str().unwrap_or_default().to_string();
        if s("creator") != from {
            return Err("dex: signer is not the contract".into());
        }
        if url == "/neutron.dex.MsgCancelLimitOrder" {
            let key = s("tranche_key");
            let o = self.dex.orders.get(&key).cloned().ok_or("dex: no such order")?;
            if o.owner != from {
                return Err("dex: not the owner".into());
            }
            Arc::make_mut(&mut self.dex).orders.remove(&key);
            self.dex_move(ctx, DEX, from, &o.tin, o.left)?;
            return self.dex_move(ctx, DEX, from, &o.tout, o.out);
        }
        let (tin, tout, to) = (s("token_in"), s("token_out"), s("receiver"));
        let v: u128 = s("amount_in").parse().map_err(|_| "dex: amount_in")?;
        let price = Uint256::from_str(&s("limit_sell_price")).map_err(|_| "dex: price")?;
        if v == 0 || price.is_zero() || tin == tout || m["order_type"] != 0 {
            return Err("dex: invalid order".into());
        }
        let unit = Uint256::from(UNIT);
        // as a taker: resting orders selling tout for tin, at no more than 1/price
        let (mut left, mut got) = (v, 0u128);
        loop {
            let best = self
                .dex
                .orders
                .iter()
                .filter(|(_, o)| o.tin == tout && o.tout == tin && o.left > 0 && Uint512::from(o.price) * Uint512::from(price) <= Uint512::from(unit) * Uint512::from(unit))
                .min_by_key(|(k, o)| (o.price, (*k).clone()))
                .map(|(k, o)| (k.clone(), o.clone()));
            let Some((k, o)) = best else { break };
            let give = if o.cost(o.left)? <= left { o.left } else { down(left, unit, o.price)? };
            if give == 0 || o.cost(give)? > left {
                break;
            }
            let cost = o.cost(give)?;
            // rounding does not take the taker below its limit either
            if Uint512::from(give) * Uint512::from(unit) < Uint512::from(cost) * Uint512::from(price) {
                break;
            }
            self.dex_move(ctx, from, DEX, &tin, cost)?;
            self.dex_move(ctx, DEX, &to, &tout, give)?;
            let r = Arc::make_mut(&mut self.dex).orders.get_mut(&k).unwrap();
            r.left -= give;
            r.out += cost;
            self.dex_note(&o.owner, &o.tin, give, cost);
            self.dex_note(from, &tin, cost, give);
            left -= cost;
            got += give;
            if left == 0 {
                break;
            }
        }
        if got > 0 {
            if let Some(min) = m["min_average_sell_price"].as_str() {
                let min = Uint256::from_str(min).map_err(|_| "dex: price")?;
                if Uint512::from(got) * Uint512::from(unit) < Uint512::from(v - left) * Uint512::from(min) {
                    return Err("dex: average price".into());
                }
            }
        }
        if left > 0 {
            self.dex_move(ctx, from, DEX, &tin, left)?;
            let d = Arc::make_mut(&mut self.dex);
            d.seq += 1;
            d.orders.insert(format!("t{:06}", d.seq), Order { owner: to, tin, tout, price, left, size: left, out: 0 });
        }
        Ok(())
    }
    pub fn dex_query(&self, path: &str, data: &[u8]) -> Result<Vec<u8>, String> {
        let m: serde_json::Value = serde_json::from_slice(data).map_err(|e| e.to_string())?;
        let r = match path {
            "/neutron.dex.Query/SimulateCancelLimitOrder" => {
                let o = m["msg"]["tranche_key"].as_str().and_then(|k| self.dex.orders.get(k)).ok_or("dex: no such order")?;
                if m["msg"]["creator"] != o.owner.as_str() {
                    return Err("dex: not the owner".into());
                }
                let c = |d: &str, v: u128| {
                    if v == 0 && self.dex.omit_zero {
                        serde_json::Value::Null
                    } else {
                        serde_json::json!({"denom": d, "amount": v.to_string()})
                    }
                };
                serde_json::json!({"resp": {"maker_coin_out": c(&o.tin, o.left), "taker_coin_out": c(&o.tout, o.out)}})
            }
            "/neutron.dex.Query/LimitOrderTrancheUserAllByAddress" => {
                let limit = m["pagination"]["limit"].as_u64().unwrap_or(100) as usize;
                let v: Vec<_> = self
                    .dex
                    .orders
                    .iter()
                    .filter(|(_, o)| m["address"] == o.owner.as_str())
                    .take(limit)
                    .map(|(k, o)| serde_json::json!({"tranche_key": k, "address": o.owner, "order_type": "GOOD_TIL_CANCELLED"}))
                    .collect();
                serde_json::json!({"limit_orders": v})
            }
            _ => return Err("unsupported".into()),
        };
        Ok(r.to_string().into_bytes())
    }
}
