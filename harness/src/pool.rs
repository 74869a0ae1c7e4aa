//! Set-up of a factory with one pool of any kind, and small helpers to act on it.
use crate::codes::*;
use crate::world::*;
use cosmwasm_std::Coin;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const OWNER: &str = "wasm1owner";
pub const SEED: &str = "wasm1seed";
pub const ALICE: &str = "wasm1alice";
pub const BOB: &str = "wasm1bob";
pub const CAROL: &str = "wasm1carol";
pub const FEE: &str = "wasm1feecollector";
pub const SHARE: &str = "wasm1feeshare";
pub const TAXR: &str = "wasm1taxrecipient";
pub const TAXADM: &str = "wasm1taxadmin";
pub const USERS: [&str; 2] = [ALICE, BOB];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum Kind {
    Xyk,
    Tax,
    Stable,
    Pcl,
    Trans,
}
impl Kind {
    pub fn pair_type(self) -> Value {
        match self {
            Kind::Xyk => json!({"xyk":{}}),
            Kind::Stable => json!({"stable":{}}),
            Kind::Tax => json!({"custom":"astroport-pair-xyk-sale-tax"}),
            Kind::Pcl => json!({"custom":"concentrated"}),
            Kind::Trans => json!({"custom":"transmuter"}),
        }
    }
    pub fn code(self) -> u64 {
        match self {
            Kind::Xyk => PAIR,
            Kind::Stable => STABLE,
            Kind::Tax => SALE_TAX,
            Kind::Pcl => PCL,
            Kind::Trans => TRANSMUTER,
        }
    }
}
pub const BOOK_TYPE: &str = "concentrated_duality_orderbook";
pub const KINDS: [Kind; 5] = [Kind::Xyk, Kind::Tax, Kind::Stable, Kind::Pcl, Kind::Trans];
pub const CURVES: [Kind; 4] = [Kind::Xyk, Kind::Tax, Kind::Stable, Kind::Pcl];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tok {
    N(String),
    T(String),
}
impl Tok {
    pub fn info(&self) -> Value {
        match self {
            Tok::N(d) => json!({"native_token":{"denom":d}}),
            Tok::T(a) => json!({"token":{"contract_addr":a}}),
        }
    }
    pub fn asset(&self, v: u128) -> Value {
        json!({"info": self.info(), "amount": v.to_string()})
    }
    pub fn bal(&self, w: &World, who: &str) -> u128 {
        match self {
            Tok::N(d) => w.bal(who, d),
            Tok::T(t) => w.cw20_bal(t, who),
        }
    }
    pub fn native(&self) -> bool {
        matches!(self, Tok::N(_))
    }
    pub fn id(&self) -> &str {
        match self {
            Tok::N(d) | Tok::T(d) => d,
        }
    }
}
/// all balances of the chain: (holder, token) -> amount
pub type Bals = BTreeMap<(String, String), u128>;
pub fn balances(w: &World) -> Bals {
    let mut m = Bals::new();
    for (a, b) in w.bank.iter() {
        for (d, v) in b {
            m.insert((a.to_string(), d.to_string()), *v);
        }
    }
    let mut pre = vec![0u8, 7];
    pre.extend_from_slice(b"balance");
    for (t, c) in &w.contracts {
        if ![CW20, BROKEN_CW20, NESTING_CW20].contains(&c.code) {
            continue;
        }
        for (k, v) in c.storage.range(pre.clone()..) {
            if !k.starts_with(&pre) {
                break;
            }
            let v: cosmwasm_std::Uint128 = cosmwasm_std::from_json(v).unwrap();
            if !v.is_zero() {
                m.insert((String::from_utf8_lossy(&k[pre.len()..]).to_string(), t.to_string()), v.u128());
            }
        }
    }
    m
}
/// non-zero balance changes
pub fn diff(a: &Bals, b: &Bals) -> BTreeMap<(String, String), i128> {
    let mut m = BTreeMap::new();
    for k in a.keys().chain(b.keys()) {
        let x = a.get(k).copied().unwrap_or(0) as i128;
        let y = b.get(k).copied().unwrap_or(0) as i128;
        if x != y {
            m.insert(k.clone(), y - x);
        }
    }
    m
}
#[derive(Default, Debug)]
pub struct Exp(pub BTreeMap<(String, String), i128>);
impl Exp {
    pub fn mv(&mut self, from: &str, to: &str, tok: &str, v: u128) -> &mut Self {
        self.add(from, tok, -(v as i128));
        self.add(to, tok, v as i128)
    }
    pub fn add(&mut self, who: &str, tok: &str, v: i128) -> &mut Self {
        let e = self.0.entry((who.into(), tok.into())).or_default();
        *e += v;
        if *e == 0 {
            self.0.remove(&(who.to_string(), tok.to_string()));
        }
        self
    }
}

#[derive(Clone, Debug)]
pub struct PclParams {
    pub amp: String,
    pub gamma: String,
    pub mid_fee: String,
    pub out_fee: String,
    pub fee_gamma: String,
    pub threshold: String,
    pub delta: String,
    pub price_scale: String,
    pub half: u64,
}
impl Default for PclParams {
    fn default() -> Self {
        PclParams {
            amp: "40".into(),
            gamma: "0.000145".into(),
            mid_fee: "0.0026".into(),
            out_fee: "0.0045".into(),
            fee_gamma: "0.00023".into(),
            threshold: "0.000002".into(),
            delta: "0.000146".into(),
            price_scale: "2".into(),
            half: 600,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: Kind,
    /// true: cw20 token
    pub cw20: Vec<bool>,
    pub dec: Vec<u8>,
    pub fee: u16,
    pub maker: u16,
    pub fee_addr: bool,
    pub share: u16,
    pub track: bool,
    pub amp: u64,
    pub pcl: PclParams,
    /// tax rate per asset
    pub tax: Vec<Option<String>>,
    pub seed: Vec<u128>,
    pub obs: Option<u32>,
    /// a change of the curve's parameters is under way
    pub ramp: bool,
    pub user_funds: u128,
    pub incentives: bool,
    /// a concentrated pool with the order book, configured like this
    pub book: Option<Value>,
}
impl Cfg {
    pub fn pair_type(&self) -> Value {
        if self.book.is_some() {
            json!({"custom": BOOK_TYPE})
        } else {
            self.kind.pair_type()
        }
    }
    pub fn code(&self) -> u64 {
        if self.book.is_some() {
            DUALITY
        } else {
            self.kind.code()
        }
    }
    pub fn new(kind: Kind) -> Cfg {
        Cfg {
            kind,
            cw20: vec![false, false],
            dec: vec![6, 6],
            fee: if kind == Kind::Trans { 0 } else { 30 },
            maker: 3333,
            fee_addr: true,
            share: 0,
            track: false,
            amp: 100,
            pcl: PclParams::default(),
            tax: vec![None, None],
            seed: vec![],
            obs: None,
            ramp: false,
            user_funds: 1u128 << 100,
            incentives: false,
            book: None,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Pool {
    pub kind: Kind,
    pub addr: String,
    pub lp: String,
    pub toks: Vec<Tok>,
    pub factory: String,
    pub incentives: Option<String>,
    pub dec: Vec<u8>,
    pub cfg: Arc<Cfg>,
}

pub fn b64(v: &Value) -> String {
    cosmwasm_std::Binary(serde_json::to_vec(v).unwrap()).to_base64()
}
pub fn pair_config(kind: Kind, fee: u16, maker: u16) -> Value {
    json!({"code_id": kind.code(), "pair_type": kind.pair_type(), "total_fee_bps": fee, "maker_fee_bps": maker,
           "is_disabled": false, "is_generator_disabled": false, "permissioned": false})
}
pub fn book_pair_config(fee: u16, maker: u16) -> Value {
    let mut c = pair_config(Kind::Pcl, fee, maker);
    c["code_id"] = json!(DUALITY);
    c["pair_type"] = json!({"custom": BOOK_TYPE});
    c
}
pub fn new_cw20(w: &mut World, name: &str, dec: u8, bals: &[(&str, u128)]) -> String {
    w.init(
        OWNER,
        CW20,
        &json!({"name": name, "symbol": "TOKEN", "decimals": dec,
            "initial_balances": bals.iter().map(|(a, v)| json!({"address": a, "amount": v.to_string()})).collect::<Vec<_>>(),
            "mint": {"minter": OWNER}}),
        &[],
    )
    .unwrap()
}
pub fn new_registry(w: &mut World, coins: &[(String, u8)]) -> String {
    let r = w.init(OWNER, REGISTRY, &json!({"owner": OWNER}), &[]).unwrap();
    if !coins.is_empty() {
        w.exec_json(OWNER, &r, json!({"add": {"native_coins": coins}}), &[]).unwrap();
    }
    r
}
pub fn new_factory(w: &mut World, registry: &str, configs: Vec<Value>, fee_addr: Option<&str>, generator: Option<&str>) -> String {
    w.init(
        OWNER,
        FACTORY,
        &json!({"pair_configs": configs, "token_code_id": CW20, "fee_address": fee_addr, "generator_address": generator,
            "owner": OWNER, "whitelist_code_id": WHITELIST, "coin_registry_address": registry,
            "tracker_config": {"code_id": TRACKER, "token_factory_addr": TF_MODULE}}),
        &[],
    )
    .unwrap()
}
pub fn init_params(cfg: &Cfg, toks: &[Tok]) -> Value {
    match cfg.kind {
        Kind::Xyk => json!({"track_asset_balances": cfg.track}),
        Kind::Tax => {
            let mut t = serde_json::Map::new();
            for (i, r) in cfg.tax.iter().enumerate() {
                if let Some(r) = r {
                    t.insert(toks[i].id().into(), json!({"tax_rate": r, "tax_recipient": TAXR}));
                }
            }
            json!({"tax_configs": t, "tax_config_admin": TAXADM, "track_asset_balances": cfg.track})
        }
        Kind::Stable => json!({"amp": cfg.amp, "owner": OWNER}),
        Kind::Pcl => {
            let p = &cfg.pcl;
            let m = json!({"amp": p.amp, "gamma": p.gamma, "mid_fee": p.mid_fee, "out_fee": p.out_fee, "fee_gamma": p.fee_gamma,
                "repeg_profit_threshold": p.threshold, "min_price_scale_delta": p.delta, "price_scale": p.price_scale,
                "ma_half_time": p.half, "track_asset_balances": cfg.track});
            match &cfg.book {
                Some(b) => json!({"main_params": m, "orderbook_config": b}),
                None => m,
            }
        }
        Kind::Trans => Value::Null,
    }
}
const NAMES: [&str; 5] = ["uaaa", "ubbb", "uccc", "uddd", "ueee"];

pub fn build(cfg: &Cfg) -> (World, Pool) {
    let mut w = World::new();
    let p = build_in(&mut w, cfg);
    (w, p)
}
pub fn build_in(w: &mut World, cfg: &Cfg) -> Pool {
    let n = cfg.cw20.len();
    let nat: Vec<(String, u8)> = (0..n).filter(|i| !cfg.cw20[*i]).map(|i| (NAMES[i].to_string(), cfg.dec[i])).collect();
    let reg = new_registry(w, &nat);
    let toks: Vec<Tok> = (0..n)
        .map(|i| {
            if cfg.cw20[i] {
                let f = cfg.user_funds;
                Tok::T(new_cw20(w, NAMES[i], cfg.dec[i], &[(SEED, f), (ALICE, f), (BOB, f)]))
            } else {
                for u in [SEED, ALICE, BOB] {
                    w.fund(u, NAMES[i], cfg.user_funds);
                }
                Tok::N(NAMES[i].into())
            }
        })
        .collect();
    let factory = new_factory(
        w,
        &reg,
        KINDS.iter().map(|k| pair_config(*k, cfg.fee, cfg.maker)).chain(cfg.book.iter().map(|_| book_pair_config(cfg.fee, cfg.maker))).collect(),
        cfg.fee_addr.then_some(FEE),
        None,
    );
    let incentives = cfg.incentives.then(|| {
        let vesting = w.init(OWNER, SINK, &json!({}), &[]).unwrap();
        let i = w
            .init(OWNER, INCENTIVES, &json!({"owner": OWNER, "factory": factory, "astro_token": {"native_token": {"denom": "uastro"}}, "vesting_contract": vesting}), &[])
            .unwrap();
        w.exec_json(OWNER, &factory, json!({"update_config": {"generator_address": i}}), &[]).unwrap();
        i
    });
    let p = create_pool(w, cfg, &factory, incentives, &toks);
    if cfg.ramp {
        w.advance(100_000, 100);
        let t = w.time + 300_000;
        let m = if cfg.kind == Kind::Stable {
            json!({"start_changing_amp": {"next_amp": cfg.amp * 9, "next_amp_time": t}})
        } else {
            let x = |s: &str, k: f64| format!("{:.6}", s.parse::<f64>().unwrap() * k);
            json!({"promote": {"next_amp": x(&cfg.pcl.amp, 7.0), "next_gamma": x(&cfg.pcl.gamma, 4.0), "future_time": t}})
        };
        p.update(w, OWNER, m).unwrap();
        w.advance(100_007, 100);
    }
    p
}
/// creates a pool of these tokens at an existing factory and seeds it
pub fn create_pool(w: &mut World, cfg: &Cfg, factory: &str, incentives: Option<String>, toks: &[Tok]) -> Pool {
    let (factory, toks) = (factory.to_string(), toks.to_vec());
    let tx = w
        .exec_json(
            OWNER,
            &factory,
            json!({"create_pair": {"pair_type": cfg.pair_type(), "asset_infos": toks.iter().map(|t| t.info()).collect::<Vec<_>>(),
                "init_params": if cfg.kind == Kind::Trans { Value::Null } else { json!(b64(&init_params(cfg, &toks))) }}}),
            &[],
        )
        .unwrap();
    let addr = tx.instantiated.iter().find(|a| w.contracts[a.as_str()].code == cfg.code()).unwrap().clone();
    let lp = w.q(&addr, json!({"pair": {}})).unwrap()["liquidity_token"].as_str().unwrap().to_string();
    for t in &toks {
        if let Tok::T(t) = t {
            for u in [SEED, ALICE, BOB] {
                w.exec_json(u, t, json!({"increase_allowance": {"spender": addr, "amount": cfg.user_funds.to_string()}}), &[]).unwrap();
            }
        }
    }
    if cfg.share > 0 {
        w.exec_json(
            OWNER,
            &addr,
            json!({"update_config": {"params": b64(&json!({"enable_fee_share": {"fee_share_bps": cfg.share, "fee_share_address": SHARE}}))}}),
            &[],
        )
        .unwrap();
    }
    if let Some(cap) = cfg.obs {
        w.poke(&addr, b"observations_state", format!("{{\"capacity\":{cap},\"head\":0}}").as_bytes());
    }
    let p = Pool { kind: cfg.kind, addr, lp, toks, factory, incentives, dec: cfg.dec.clone(), cfg: Arc::new(cfg.clone()) };
    if !cfg.seed.is_empty() {
        p.provide(w, SEED, &cfg.seed, json!({})).unwrap();
    }
    p
}

fn with(mut base: Value, extra: Value) -> Value {
    if let Value::Object(e) = extra {
        for (k, v) in e {
            base[k] = v;
        }
    }
    base
}

impl Pool {
    pub fn n(&self) -> usize {
        self.toks.len()
    }
    pub fn funds(&self, a: &[u128]) -> Vec<Coin> {
        let mut v: Vec<Coin> = (0..a.len()).filter(|i| self.toks[*i].native() && a[*i] > 0).map(|i| coin(a[i], self.toks[i].id())).collect();
        v.sort_by(|x, y| x.denom.cmp(&y.denom));
        v
    }
    pub fn assets(&self, a: &[u128]) -> Value {
        Value::Array((0..a.len()).map(|i| self.toks[i].asset(a[i])).collect())
    }
    pub fn provide(&self, w: &mut World, who: &str, a: &[u128], extra: Value) -> Result<Tx, String> {
        let base = json!({"assets": self.assets(a), "slippage_tolerance": if self.kind == Kind::Trans { Value::Null } else { json!("0.5") }});
        w.exec_json(who, &self.addr, json!({"provide_liquidity": with(base, extra)}), &self.funds(a))
    }
    pub fn withdraw(&self, w: &mut World, who: &str, lp: u128, extra: Value) -> Result<Tx, String> {
        w.exec_json(who, &self.addr, json!({"withdraw_liquidity": with(json!({"assets": []}), extra)}), &[coin(lp, &self.lp)])
    }
    /// swap with extra message fields ("max_spread", "belief_price", "to", "ask_asset_info")
    pub fn swap(&self, w: &mut World, who: &str, i: usize, v: u128, extra: Value) -> Result<Tx, String> {
        match &self.toks[i] {
            Tok::N(d) => w.exec_json(
                who,
                &self.addr,
                json!({"swap": with(json!({"offer_asset": self.toks[i].asset(v)}), extra)}),
                &[coin(v, d)],
            ),
            Tok::T(t) => w.exec_json(
                who,
                t,
                json!({"send": {"contract": self.addr, "amount": v.to_string(), "msg": b64(&json!({"swap": with(json!({}), extra)}))}}),
                &[],
            ),
        }
    }
    pub fn wide(&self) -> Value {
        json!({"max_spread": "0.5"})
    }
    pub fn reserves(&self, w: &World) -> Vec<u128> {
        if self.cfg.book.is_some() {
            return self.reported(w);
        }
        self.toks.iter().map(|t| t.bal(w, &self.addr)).collect()
    }
    /// the reserves the pool reports
    pub fn reported(&self, w: &World) -> Vec<u128> {
        let r = w.q(&self.addr, json!({"pool": {}})).unwrap();
        self.toks.iter().map(|t| r["assets"].as_array().unwrap().iter().find(|a| a["info"] == t.info()).map(|a| u(&a["amount"])).unwrap()).collect()
    }
    pub fn supply(&self, w: &World) -> u128 {
        w.supply(&self.lp)
    }
    pub fn lp_of(&self, w: &World, who: &str) -> u128 {
        w.bal(who, &self.lp)
    }
    pub fn donate(&self, w: &mut World, who: &str, i: usize, v: u128) -> Result<(), String> {
        match &self.toks[i] {
            Tok::N(d) => w.send(who, &self.addr, d, v),
            Tok::T(t) => w.exec_json(who, t, json!({"transfer": {"recipient": self.addr, "amount": v.to_string()}}), &[]).map(|_| ()),
        }
    }
    pub fn sim(&self, w: &World, i: usize, v: u128, ask: Option<usize>) -> Result<(u128, u128, u128), String> {
        let r = w.q(
            &self.addr,
            json!({"simulation": {"offer_asset": self.toks[i].asset(v), "ask_asset_info": ask.map(|j| self.toks[j].info())}}),
        )?;
        Ok((u(&r["return_amount"]), u(&r["spread_amount"]), u(&r["commission_amount"])))
    }
    pub fn rev(&self, w: &World, j: usize, v: u128, offer: Option<usize>) -> Result<(u128, u128, u128), String> {
        let r = w.q(
            &self.addr,
            json!({"reverse_simulation": {"ask_asset": self.toks[j].asset(v), "offer_asset_info": offer.map(|j| self.toks[j].info())}}),
        )?;
        Ok((u(&r["offer_amount"]), u(&r["spread_amount"]), u(&r["commission_amount"])))
    }
    pub fn config_params(&self, w: &World) -> Value {
        let c = w.q(&self.addr, json!({"config": {}})).unwrap();
        match c["params"].as_str() {
            Some(s) => serde_json::from_slice(cosmwasm_std::Binary::from_base64(s).unwrap().as_slice()).unwrap(),
            None => Value::Null,
        }
    }
    pub fn update(&self, w: &mut World, who: &str, params: Value) -> Result<Tx, String> {
        w.exec_json(who, &self.addr, json!({"update_config": {"params": b64(&params)}}), &[])
    }
}
/// integer from a JSON string
pub fn u(v: &Value) -> u128 {
    v.as_str().and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("not an integer: {v}"))
}
