//! A small deterministic chain: real contracts, in-memory state, cloneable, one transaction at a time.
use cosmwasm_std::{
    from_json, Addr, AllBalanceResponse, Api, BalanceResponse, BankMsg, BankQuery, Binary, BlockInfo,
    CanonicalAddr, Coin, ContractInfo, ContractInfoResponse, ContractResult, CosmosMsg, Empty, Env,
    Event, MessageInfo, Order, Querier, QuerierResult, QueryRequest, RecoverPubkeyError, Reply,
    ReplyOn, Response, StdError, StdResult, Storage, SubMsgResponse, SubMsgResult, SupplyResponse,
    SystemError, SystemResult, Timestamp, TransactionInfo, Uint128, VerificationError, WasmMsg,
    WasmQuery,
};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::sync::Arc;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
pub const TF_MODULE: &str = "wasm1tokenfactorymodule";

// ---------------------------------------------------------------- hashing
#[derive(Clone, Copy)]
pub struct H(pub u64, pub u64);
impl H {
    pub fn new() -> Self {
        H(0x9E37_79B9_7F4A_7C15, 0xC2B2_AE3D_27D4_EB4F)
    }
    #[inline]
    pub fn u64(&mut self, x: u64) {
        let a = (self.0 ^ x) as u128 * 0xA076_1D64_78BD_642F_u128;
        self.0 = (a as u64) ^ ((a >> 64) as u64) ^ 0x1234_5678_9ABC_DEF1u64.rotate_left((x & 31) as u32);
        let b = (self.1 ^ x.rotate_left(29)) as u128 * 0xE703_7ED1_A0B4_28DB_u128;
        self.1 = (b as u64).wrapping_add((b >> 64) as u64) ^ self.0.rotate_left(17);
    }
    pub fn u128(&mut self, x: u128) {
        self.u64(x as u64);
        self.u64((x >> 64) as u64);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64 ^ 0x5555);
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(v));
        }
    }
    pub fn str(&mut self, s: &str) {
        self.bytes(s.as_bytes())
    }
    pub fn done(self) -> u128 {
        let mut s = self;
        s.u64(0xABCD);
        s.u64(0x1234);
        ((s.0 as u128) << 64) | s.1 as u128
    }
}
fn hash_map(m: &Map) -> u128 {
    let mut h = H::new();
    for (k, v) in m {
        h.bytes(k);
        h.bytes(v);
    }
    h.done()
}

// ---------------------------------------------------------------- storage and api
pub struct Store {
    pub m: Arc<Map>,
    pub dirty: bool,
}
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.m.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            panic!("empty value");
        }
        self.dirty = true;
        // this record contains a hash map, which native code writes in a random order
        let mut value = value.to_vec();
        if key == b"orderbook_config" {
            if let Ok(v) = serde_json::from_slice::<serde_json::Value>(&value) {
                value = v.to_string().into_bytes();
            }
        }
        Arc::make_mut(&mut self.m).insert(key.to_vec(), value);
    }
    fn remove(&mut self, key: &[u8]) {
        self.dirty = true;
        Arc::make_mut(&mut self.m).remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = (Vec<u8>, Vec<u8>)> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let b = (
            start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec())),
            end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec())),
        );
        let it = self.m.range::<Vec<u8>, _>(b).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

#[derive(Clone, Copy)]
pub struct WApi;
impl Api for WApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.len() >= 6
            && human.starts_with("wasm1")
            && human.bytes().all(|c| c.is_ascii_digit() || c.is_ascii_lowercase())
        {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err(format!("invalid address {human}")))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr(Binary(human.as_bytes().to_vec())))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(canonical.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}
pub static API: WApi = WApi;

// ---------------------------------------------------------------- codes
pub enum Msg {
    Std(CosmosMsg<Empty>),
    Custom(String),
}
/// error of a call that consumes all the gas it gets
pub const OUT_OF_GAS: &str = "out of gas";
pub struct Sub {
    pub id: u64,
    pub msg: Msg,
    pub gas_limit: Option<u64>,
    pub reply_on: ReplyOn,
}
#[derive(Default)]
pub struct Resp {
    pub messages: Vec<Sub>,
    pub attributes: Vec<(String, String)>,
    pub data: Option<Binary>,
}
pub fn conv<T: Serialize>(r: Response<T>) -> Resp {
    Resp {
        messages: r
            .messages
            .into_iter()
            .map(|s| Sub {
                id: s.id,
                gas_limit: s.gas_limit,
                reply_on: s.reply_on,
                msg: match s.msg {
                    CosmosMsg::Bank(b) => Msg::Std(CosmosMsg::Bank(b)),
                    CosmosMsg::Wasm(b) => Msg::Std(CosmosMsg::Wasm(b)),
                    CosmosMsg::Ibc(b) => Msg::Std(CosmosMsg::Ibc(b)),
                    CosmosMsg::Stargate { type_url, value } => Msg::Std(CosmosMsg::Stargate { type_url, value }),
                    CosmosMsg::Custom(c) => Msg::Custom(serde_json::to_string(&c).unwrap()),
                    _ => panic!("unsupported message"),
                },
            })
            .collect(),
        attributes: r.attributes.into_iter().map(|a| (a.key, a.value)).collect(),
        data: r.data,
    }
}
pub type ExecFn = fn(&mut dyn Storage, &dyn Querier, Env, MessageInfo, &[u8]) -> Result<Resp, String>;
pub type QueryFn = fn(&dyn Storage, &dyn Querier, Env, &[u8]) -> Result<Binary, String>;
pub type ReplyFn = fn(&mut dyn Storage, &dyn Querier, Env, Reply) -> Result<Resp, String>;
pub type SudoFn = fn(&mut dyn Storage, &dyn Querier, Env, &[u8]) -> Result<Resp, String>;
#[derive(Clone, Copy)]
pub struct Code {
    pub name: &'static str,
    pub instantiate: ExecFn,
    pub execute: ExecFn,
    pub query: QueryFn,
    pub reply: Option<ReplyFn>,
    pub sudo: Option<SudoFn>,
    pub migrate: Option<SudoFn>,
}
pub fn parse<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    from_json(b).map_err(|e| e.to_string())
}
#[macro_export]
macro_rules! depsmut {
    ($s:ident,$q:ident) => {
        cosmwasm_std::DepsMut { storage: $s, api: &$crate::world::API, querier: cosmwasm_std::QuerierWrapper::new($q) }
    };
}
#[macro_export]
macro_rules! f_exec {
    ($f:path) => {{
        fn f(s: &mut dyn cosmwasm_std::Storage, q: &dyn cosmwasm_std::Querier, env: cosmwasm_std::Env, info: cosmwasm_std::MessageInfo, m: &[u8]) -> Result<$crate::world::Resp, String> {
            let m = $crate::world::parse(m)?;
            $f($crate::depsmut!(s, q), env, info, m).map($crate::world::conv).map_err(|e| e.to_string())
        }
        f as $crate::world::ExecFn
    }};
}
#[macro_export]
macro_rules! f_query {
    ($f:path) => {{
        fn f(s: &dyn cosmwasm_std::Storage, q: &dyn cosmwasm_std::Querier, env: cosmwasm_std::Env, m: &[u8]) -> Result<cosmwasm_std::Binary, String> {
            let m = $crate::world::parse(m)?;
            let d = cosmwasm_std::Deps { storage: s, api: &$crate::world::API, querier: cosmwasm_std::QuerierWrapper::new(q) };
            $f(d, env, m).map_err(|e| e.to_string())
        }
        f as $crate::world::QueryFn
    }};
}
#[macro_export]
macro_rules! f_reply {
    ($f:path) => {{
        fn f(s: &mut dyn cosmwasm_std::Storage, q: &dyn cosmwasm_std::Querier, env: cosmwasm_std::Env, r: cosmwasm_std::Reply) -> Result<$crate::world::Resp, String> {
            $f($crate::depsmut!(s, q), env, r).map($crate::world::conv).map_err(|e| e.to_string())
        }
        f as $crate::world::ReplyFn
    }};
}
#[macro_export]
macro_rules! f_sudo {
    ($f:path) => {{
        fn f(s: &mut dyn cosmwasm_std::Storage, q: &dyn cosmwasm_std::Querier, env: cosmwasm_std::Env, m: &[u8]) -> Result<$crate::world::Resp, String> {
            let m = $crate::world::parse(m)?;
            $f($crate::depsmut!(s, q), env, m).map($crate::world::conv).map_err(|e| e.to_string())
        }
        f as $crate::world::SudoFn
    }};
}

// ---------------------------------------------------------------- world
#[derive(Clone)]
pub struct Contract {
    pub code: u64,
    pub creator: String,
    pub admin: Option<String>,
    pub storage: Arc<Map>,
    pub h: u128,
}
type Bank = BTreeMap<Arc<str>, BTreeMap<Arc<str>, u128>>;
#[derive(Clone, Default, Debug)]
pub struct Tf {
    pub creator: String,
    pub hook: Option<String>,
}
#[derive(Clone)]
pub struct World {
    pub contracts: BTreeMap<Arc<str>, Contract>,
    pub bank: Arc<Bank>,
    pub tf: Arc<BTreeMap<String, Tf>>,
    pub time: u64,
    pub height: u64,
    pub next: u32,
    pub dex: Arc<crate::dex::Dex>,
}

#[derive(Default, Clone, Debug)]
pub struct Tx {
    /// (contract, key, value) of every response attribute, in execution order
    pub attrs: Vec<(String, String, String)>,
    /// chain messages that leave the modelled chain: type and raw content
    pub out: Vec<(String, Vec<u8>)>,
    /// address of every contract call executed, with its message
    pub calls: Vec<(String, String, String)>,
    pub instantiated: Vec<String>,
    pub data: Option<Binary>,
}
impl Tx {
    pub fn attr(&self, contract: &str, key: &str) -> Option<&str> {
        self.attrs.iter().rev().find(|a| a.0 == contract && a.1 == key).map(|a| a.2.as_str())
    }
    pub fn attr_u(&self, contract: &str, key: &str) -> Option<u128> {
        self.attr(contract, key).and_then(|v| v.parse().ok())
    }
}
#[derive(Default)]
pub struct Ctx {
    pub tx: Tx,
    pub dispatched: usize,
    /// fail the n-th dispatched sub-message (0-based)
    pub fail_at: Vec<usize>,
    /// accept fault injections only where the dispatched message is not caught by anyone
    pub faults_hit: usize,
    pub depth: usize,
}

thread_local! { static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) || std::env::var("MC_PANIC").is_ok() {
            old(i)
        }
    }));
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|e| {
        let s = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        format!("panic: {s}")
    })
}

/// the chain's minimal fees for interchain transfers
pub const MIN_IBC_FEE: &str = r#"{"min_fee":{"recv_fee":[],"ack_fee":[{"denom":"uother","amount":"5"},{"denom":"untrn","amount":"30"}],"timeout_fee":[{"denom":"untrn","amount":"20"}]}}"#;
pub struct WQuerier<'a> {
    pub w: &'a World,
}
impl<'a> Querier for WQuerier<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                let custom: Option<serde_json::Value> = serde_json::from_slice(bin).ok();
                if custom.is_some_and(|c| c["custom"]["min_ibc_fee"].is_object()) {
                    return SystemResult::Ok(ContractResult::Ok(Binary(MIN_IBC_FEE.as_bytes().to_vec())));
                }
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() });
            }
        };
        match req {
            QueryRequest::Custom(_) => {
                let custom: Option<serde_json::Value> = serde_json::from_slice(bin).ok();
                if custom.is_some_and(|c| c["custom"]["min_ibc_fee"].is_object()) {
                    return SystemResult::Ok(ContractResult::Ok(Binary(MIN_IBC_FEE.as_bytes().to_vec())));
                }
                SystemResult::Err(SystemError::UnsupportedRequest { kind: "custom".into() })
            }
            QueryRequest::Bank(b) => {
                let r = match b {
                    BankQuery::Balance { address, denom } => cosmwasm_std::to_json_binary(&{
                        let a = self.w.bal(&address, &denom);
                        let mut r = BalanceResponse::default();
                        r.amount = cosmwasm_std::coin(a, denom);
                        r
                    }),
                    BankQuery::AllBalances { address } => cosmwasm_std::to_json_binary(&{
                        let mut r = AllBalanceResponse::default();
                        r.amount = self
                            .w
                            .bank
                            .get(address.as_str())
                            .map(|m| m.iter().map(|(d, a)| cosmwasm_std::coin(*a, d.to_string())).collect())
                            .unwrap_or_default();
                        r
                    }),
                    BankQuery::Supply { denom } => cosmwasm_std::to_json_binary(&{
                        let mut r = SupplyResponse::default();
                        r.amount = cosmwasm_std::coin(self.w.supply(&denom), denom);
                        r
                    }),
                    _ => {
                        return SystemResult::Err(SystemError::UnsupportedRequest { kind: "bank".into() });
                    }
                };
                SystemResult::Ok(ContractResult::Ok(r.unwrap()))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if !self.w.contracts.contains_key(contract_addr.as_str()) {
                    return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr });
                }
                match self.w.query_bin(&contract_addr, &msg) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                match self.w.contracts.get(contract_addr.as_str()) {
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                    Some(c) => SystemResult::Ok(ContractResult::Ok(Binary(
                        c.storage.get(key.as_slice()).cloned().unwrap_or_default(),
                    ))),
                }
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                match self.w.contracts.get(contract_addr.as_str()) {
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                    Some(c) => {
                        let mut r = ContractInfoResponse::default();
                        r.code_id = c.code;
                        r.creator = c.creator.clone();
                        r.admin = c.admin.clone();
                        SystemResult::Ok(ContractResult::Ok(cosmwasm_std::to_json_binary(&r).unwrap()))
                    }
                }
            }
            QueryRequest::Stargate { path, data } if path.starts_with("/neutron.dex.") => SystemResult::Ok(match self.w.dex_query(&path, &data) {
                Ok(b) => ContractResult::Ok(Binary(b)),
                Err(e) => ContractResult::Err(e),
            }),
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() }),
        }
    }
}

pub fn pb_field(n: u8, b: &[u8]) -> Vec<u8> {
    let mut o = vec![n << 3 | 2];
    let mut l = b.len();
    loop {
        if l < 128 {
            o.push(l as u8);
            break;
        }
        o.push((l & 127) as u8 | 128);
        l >>= 7;
    }
    o.extend_from_slice(b);
    o
}
/// decodes a protobuf message into (field number, bytes) for length-delimited fields and varints
pub fn pb_decode(b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    fn var(b: &[u8], i: &mut usize) -> u64 {
        let (mut r, mut s) = (0u64, 0);
        loop {
            let x = b[*i];
            *i += 1;
            r |= ((x & 127) as u64) << s;
            s += 7;
            if x < 128 {
                return r;
            }
        }
    }
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let t = var(b, &mut i);
        match t & 7 {
            0 => {
                let v = var(b, &mut i);
                out.push((t >> 3, v.to_string().into_bytes()));
            }
            2 => {
                let l = var(b, &mut i) as usize;
                out.push((t >> 3, b[i..i + l].to_vec()));
                i += l;
            }
            _ => panic!("pb"),
        }
    }
    out
}
pub fn pb_str(f: &[(u64, Vec<u8>)], n: u64) -> String {
    f.iter().find(|x| x.0 == n).map(|x| String::from_utf8(x.1.clone()).unwrap()).unwrap_or_default()
}
fn pb_coin(f: &[(u64, Vec<u8>)], n: u64) -> Result<(String, u128), String> {
    let c = f.iter().find(|x| x.0 == n).ok_or("no coin")?;
    let c = pb_decode(&c.1);
    Ok((pb_str(&c, 1), pb_str(&c, 2).parse().map_err(|_| "bad amount".to_string())?))
}

impl World {
    pub fn new() -> Self {
        World {
            contracts: BTreeMap::new(),
            bank: Arc::new(BTreeMap::new()),
            tf: Arc::new(BTreeMap::new()),
            time: 1_700_000_000,
            height: 1000,
            next: 0,
            dex: Default::default(),
        }
    }
    /// fingerprint of the whole state; time and height only if asked
    pub fn fp(&self, h: &mut H, time: bool) {
        for (a, c) in &self.contracts {
            h.str(a);
            h.u64(c.code);
            h.u128(c.h);
        }
        for (a, m) in self.bank.iter() {
            if m.is_empty() {
                continue;
            }
            h.str(a);
            for (d, v) in m {
                h.str(d);
                h.u128(*v);
            }
        }
        for (d, t) in self.tf.iter() {
            h.str(d);
            h.str(t.hook.as_deref().unwrap_or(""));
        }
        for (k, o) in &self.dex.orders {
            h.str(k);
            h.u128(o.left);
            h.u128(o.out);
        }
        if time {
            h.u64(self.time);
            h.u64(self.height);
        }
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.bank.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0)
    }
    pub fn supply(&self, d: &str) -> u128 {
        self.bank.values().map(|m| m.get(d).copied().unwrap_or(0)).fold(0u128, |a, b| a.saturating_add(b))
    }
    pub fn set_bal(&mut self, a: &str, d: &str, v: u128) {
        let b = Arc::make_mut(&mut self.bank);
        if !b.contains_key(a) {
            b.insert(a.into(), BTreeMap::new());
        }
        let m = b.get_mut(a).unwrap();
        if v == 0 {
            m.remove(d);
        } else if let Some(x) = m.get_mut(d) {
            *x = v
        } else {
            m.insert(d.into(), v);
        }
    }
    pub fn fund(&mut self, a: &str, d: &str, v: u128) {
        let x = self.bal(a, d);
        self.set_bal(a, d, x + v)
    }
    pub fn advance(&mut self, secs: u64, blocks: u64) {
        self.time += secs;
        self.height += blocks;
    }
    pub fn env(&self, contract: &str) -> Env {
        Env {
            block: BlockInfo { height: self.height, time: Timestamp::from_seconds(self.time), chain_id: "mc-1".into() },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(contract) },
        }
    }
    fn code_of(&self, a: &str) -> Result<&'static Code, String> {
        let c = self.contracts.get(a).ok_or_else(|| format!("no such contract {a}"))?;
        Ok(crate::codes::code(c.code))
    }
    pub fn query_bin(&self, a: &str, msg: &[u8]) -> Result<Binary, String> {
        let code = self.code_of(a)?;
        let st = Store { m: self.contracts[a].storage.clone(), dirty: false };
        (code.query)(&st, &WQuerier { w: self }, self.env(a), msg)
    }
    pub fn query<T: DeserializeOwned>(&self, a: &str, msg: &impl Serialize) -> Result<T, String> {
        let m = cosmwasm_std::to_json_vec(msg).map_err(|e| e.to_string())?;
        let b = quiet(|| self.query_bin(a, &m)).and_then(|x| x)?;
        from_json(&b).map_err(|e| e.to_string())
    }
    /// query with and answer as untyped JSON
    pub fn q(&self, a: &str, msg: serde_json::Value) -> Result<serde_json::Value, String> {
        let m = serde_json::to_vec(&msg).unwrap();
        let b = quiet(|| self.query_bin(a, &m)).and_then(|x| x)?;
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    }
    fn with_contract<T>(
        &mut self,
        a: &str,
        f: impl FnOnce(&'static Code, &mut Store, &WQuerier, Env) -> Result<T, String>,
    ) -> Result<T, String> {
        let code = self.code_of(a)?;
        let mut st = Store { m: self.contracts[a].storage.clone(), dirty: false };
        let env = self.env(a);
        let r = f(code, &mut st, &WQuerier { w: self }, env)?;
        if st.dirty {
            if self.contracts[a].code == crate::codes::SALE_TAX {
                // its tax settings are a hash map, whose order is fixed on chain but random here
                if let Some(v) = st.m.get(b"config".as_slice()).and_then(|v| serde_json::from_slice::<serde_json::Value>(v).ok()) {
                    Arc::make_mut(&mut st.m).insert(b"config".to_vec(), serde_json::to_vec(&v).unwrap());
                }
            }
            if self.contracts[a].code == crate::codes::INCENTIVES {
                // finished rewards are collected in a hash map, whose order is fixed on chain but random here
                let mut pre = vec![0u8, 12];
                pre.extend_from_slice(b"fin_rew_inds");
                let l: Vec<_> = st.m.range(pre.clone()..).take_while(|x| x.0.starts_with(&pre)).map(|(k, v)| (k.clone(), v.clone())).collect();
                for (k, v) in l {
                    if let Ok(mut x) = serde_json::from_slice::<Vec<serde_json::Value>>(&v) {
                        x.sort_by_key(|e| e[0].to_string());
                        Arc::make_mut(&mut st.m).insert(k, serde_json::to_vec(&x).unwrap());
                    }
                }
            }
            let h = hash_map(&st.m);
            let c = self.contracts.get_mut(a).unwrap();
            c.storage = st.m;
            c.h = h;
        }
        Ok(r)
    }
    /// edit a contract's raw storage (set-up only)
    pub fn poke(&mut self, a: &str, key: &[u8], val: &[u8]) {
        let c = self.contracts.get_mut(a).unwrap();
        Arc::make_mut(&mut c.storage).insert(key.to_vec(), val.to_vec());
        c.h = hash_map(&c.storage);
    }
    pub fn unpoke(&mut self, a: &str, key: &[u8]) {
        let c = self.contracts.get_mut(a).unwrap();
        Arc::make_mut(&mut c.storage).remove(key);
        c.h = hash_map(&c.storage);
    }
    pub(crate) fn transfer(&mut self, ctx: &mut Ctx, from: &str, to: &str, coins: &[(String, u128)]) -> Result<(), String> {
        for (_, v) in coins {
            if *v == 0 {
                return Err("invalid coins: zero amount".into());
            }
        }
        for (d, v) in coins {
            self.hook(ctx, d, from, to, *v)?;
            let b = self.bal(from, d);
            if b < *v {
                return Err(format!("insufficient funds: {from} has {b}{d}, needs {v}"));
            }
            self.set_bal(from, d, b - v);
            let t = self.bal(to, d);
            self.set_bal(to, d, t.checked_add(*v).ok_or("bank overflow")?);
        }
        Ok(())
    }
    fn hook(&mut self, ctx: &mut Ctx, denom: &str, from: &str, to: &str, v: u128) -> Result<(), String> {
        if let Some(Tf { hook: Some(h), .. }) = self.tf.get(denom).cloned() {
            let m = serde_json::json!({"block_before_send":{"from":from,"to":to,"amount":{"denom":denom,"amount":v.to_string()}}});
            self.sudo_in(ctx, &h, &serde_json::to_vec(&m).unwrap())?;
        }
        Ok(())
    }
    fn sudo_in(&mut self, ctx: &mut Ctx, a: &str, m: &[u8]) -> Result<(), String> {
        let r = self.with_contract(a, |c, s, q, e| (c.sudo.ok_or("no sudo")?)(s, q, e, m))?;
        self.process(ctx, a, r)?;
        Ok(())
    }
    fn process(&mut self, ctx: &mut Ctx, a: &str, r: Resp) -> Result<(Option<Binary>, Vec<Event>), String> {
        ctx.depth += 1;
        if ctx.depth > 40 {
            return Err("call depth".into());
        }
        let mut ev = Event::new("wasm").add_attribute("_contract_address", a);
        for (k, v) in &r.attributes {
            ev = ev.add_attribute(k, v);
            ctx.tx.attrs.push((a.to_string(), k.clone(), v.clone()));
        }
        let mut events = vec![ev];
        let mut data = r.data;
        for s in r.messages {
            let n = ctx.dispatched;
            ctx.dispatched += 1;
            let caught = matches!(s.reply_on, ReplyOn::Always | ReplyOn::Error);
            let snap = caught.then(|| (self.clone(), ctx.tx.clone(), ctx.depth));
            let res = if ctx.fail_at.contains(&n) {
                ctx.faults_hit += 1;
                Err("injected failure".to_string())
            } else {
                // a trap inside the call is a failure of the call
                quiet(|| self.dispatch(ctx, a, s.msg)).and_then(|x| x)
            };
            let reply = match res {
                Ok((d, ev)) => {
                    events.extend(ev.clone());
                    if matches!(s.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        Some(SubMsgResult::Ok(SubMsgResponse { events: ev, data: d }))
                    } else {
                        None
                    }
                }
                Err(e) => {
                    // running out of the transaction's own gas cannot be caught
                    let fatal = e == OUT_OF_GAS && s.gas_limit.is_none();
                    if let (Some((w, tx, d)), false) = (snap, fatal) {
                        *self = w;
                        ctx.tx = tx;
                        ctx.depth = d;
                        Some(SubMsgResult::Err(e))
                    } else {
                        return Err(e);
                    }
                }
            };
            if let Some(result) = reply {
                let rp = Reply { id: s.id, result };
                let r = self.with_contract(a, |c, s, q, e| (c.reply.ok_or("no reply entry point")?)(s, q, e, rp))?;
                let (d, ev) = self.process(ctx, a, r)?;
                events.extend(ev);
                if d.is_some() {
                    data = d;
                }
            }
        }
        ctx.depth -= 1;
        Ok((data, events))
    }
    fn coins(c: &[Coin]) -> Vec<(String, u128)> {
        c.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect()
    }
    fn execute_in(
        &mut self,
        ctx: &mut Ctx,
        sender: &str,
        a: &str,
        msg: &[u8],
        funds: &[Coin],
    ) -> Result<(Option<Binary>, Vec<Event>), String> {
        if !self.contracts.contains_key(a) {
            return Err(format!("no such contract {a}"));
        }
        let mut seen: Vec<&str> = vec![];
        for f in funds {
            if seen.contains(&f.denom.as_str()) {
                return Err("invalid coins: duplicate denom".into());
            }
            seen.push(&f.denom);
        }
        self.transfer(ctx, sender, a, &Self::coins(funds))?;
        ctx.tx.calls.push((sender.to_string(), a.to_string(), String::from_utf8_lossy(msg).into_owned()));
        let mut funds = funds.to_vec();
        funds.sort_by(|x, y| x.denom.cmp(&y.denom));
        let info = MessageInfo { sender: Addr::unchecked(sender), funds };
        let r = self.with_contract(a, |c, s, q, e| (c.execute)(s, q, e, info, msg))?;
        let (d, ev) = self.process(ctx, a, r)?;
        ctx.tx.data = d.clone();
        Ok((Some(Binary(d.map(|d| pb_field(1, &d)).unwrap_or_default())), ev))
    }
    #[allow(clippy::too_many_arguments)]
    fn instantiate_in(
        &mut self,
        ctx: &mut Ctx,
        sender: &str,
        code: u64,
        msg: &[u8],
        funds: &[Coin],
        admin: Option<String>,
    ) -> Result<(String, Option<Binary>, Vec<Event>), String> {
        if !crate::codes::exists(code) {
            return Err("no such code".into());
        }
        let a = format!("wasm1contract{:03}", self.next);
        self.next += 1;
        self.contracts.insert(
            a.as_str().into(),
            Contract { code, creator: sender.into(), admin, storage: Arc::new(Map::new()), h: 0 },
        );
        self.transfer(ctx, sender, &a, &Self::coins(funds))?;
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let r = self.with_contract(&a, |c, s, q, e| (c.instantiate)(s, q, e, info, msg))?;
        let (d, ev) = self.process(ctx, &a, r)?;
        ctx.tx.instantiated.push(a.clone());
        let mut o = pb_field(1, a.as_bytes());
        if let Some(d) = d {
            o.extend(pb_field(2, &d));
        }
        Ok((a, Some(Binary(o)), ev))
    }
    fn dispatch(&mut self, ctx: &mut Ctx, from: &str, m: Msg) -> Result<(Option<Binary>, Vec<Event>), String> {
        match m {
            Msg::Custom(s) => {
                let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                if let Some(t) = v.get("ibc_transfer") {
                    if t["sender"] != serde_json::json!(from) {
                        return Err("ibc transfer: sender is not the contract".into());
                    }
                    // the chain takes the coin and the fees
                    let none = vec![];
                    let fee = &t["fee"];
                    let mut c = vec![&t["token"]];
                    for k in ["recv_fee", "ack_fee", "timeout_fee"] {
                        c.extend(fee[k].as_array().unwrap_or(&none));
                    }
                    for c in c {
                        let (d, a) = (c["denom"].as_str().unwrap_or_default(), c["amount"].as_str().and_then(|x| x.parse::<u128>().ok()).unwrap_or(0));
                        let b = self.bal(from, d);
                        if a == 0 || b < a {
                            return Err("ibc transfer: insufficient funds".into());
                        }
                        self.set_bal(from, d, b - a);
                    }
                }
                ctx.tx.out.push(("custom".into(), s.into_bytes()));
                Ok((None, vec![]))
            }
            Msg::Std(CosmosMsg::Bank(BankMsg::Send { to_address, amount })) => {
                API.addr_validate(&to_address).map_err(|e| e.to_string())?;
                if amount.is_empty() {
                    return Err("invalid coins: empty".into());
                }
                self.transfer(ctx, from, &to_address, &Self::coins(&amount))?;
                Ok((None, vec![]))
            }
            Msg::Std(CosmosMsg::Bank(BankMsg::Burn { amount })) => {
                for c in amount {
                    if c.amount.is_zero() {
                        return Err("zero burn".into());
                    }
                    let b = self.bal(from, &c.denom);
                    let v = c.amount.u128();
                    if b < v {
                        return Err("insufficient funds to burn".into());
                    }
                    self.set_bal(from, &c.denom, b - v);
                }
                Ok((None, vec![]))
            }
            Msg::Std(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })) => {
                self.execute_in(ctx, from, &contract_addr, &msg, &funds)
            }
            Msg::Std(CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, .. })) => self
                .instantiate_in(ctx, from, code_id, &msg, &funds, admin)
                .map(|(_, d, e)| (d, e)),
            Msg::Std(CosmosMsg::Stargate { type_url, value }) => self.stargate(ctx, from, &type_url, &value),
            Msg::Std(m @ CosmosMsg::Ibc(_)) => {
                if let CosmosMsg::Ibc(cosmwasm_std::IbcMsg::Transfer { amount, .. }) = &m {
                    let b = self.bal(from, &amount.denom);
                    let v = amount.amount.u128();
                    if v == 0 || b < v {
                        return Err("ibc transfer: insufficient funds".into());
                    }
                    self.set_bal(from, &amount.denom, b - v);
                }
                ctx.tx.out.push(("ibc".into(), serde_json::to_vec(&m).unwrap()));
                Ok((None, vec![]))
            }
            Msg::Std(m) => Err(format!("unsupported message {m:?}")),
        }
    }
    fn stargate(&mut self, ctx: &mut Ctx, from: &str, url: &str, val: &[u8]) -> Result<(Option<Binary>, Vec<Event>), String> {
        if url.starts_with("/neutron.dex.Msg") {
            self.dex_msg(ctx, from, url, val)?;
            return Ok((Some(Binary::default()), vec![]));
        }
        let f = pb_decode(val);
        let need_sender = |n: u64| {
            if pb_str(&f, n) == from {
                Ok(())
            } else {
                Err("stargate: signer is not the contract".to_string())
            }
        };
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                need_sender(1)?;
                let denom = format!("factory/{from}{}", pb_str(&f, 2)).replacen(from, &format!("{from}/"), 1);
                if self.tf.contains_key(&denom) {
                    return Err("denom exists".into());
                }
                Arc::make_mut(&mut self.tf).insert(denom.clone(), Tf { creator: from.into(), hook: None });
                Ok((Some(Binary(pb_field(1, denom.as_bytes()))), vec![]))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                need_sender(1)?;
                let (d, v) = pb_coin(&f, 2)?;
                let mut to = pb_str(&f, 3);
                if to.is_empty() {
                    to = from.to_string();
                }
                if self.tf.get(&d).map(|t| t.creator.as_str()) != Some(from) {
                    return Err("not denom admin".into());
                }
                if v == 0 {
                    return Err("zero mint".into());
                }
                self.supply(&d).checked_add(v).ok_or("supply overflow")?;
                self.fund(TF_MODULE, &d, v);
                self.transfer(ctx, TF_MODULE, &to, &[(d, v)])?;
                Ok((Some(Binary::default()), vec![]))
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                need_sender(1)?;
                let (d, v) = pb_coin(&f, 2)?;
                let mut who = pb_str(&f, 3);
                if who.is_empty() {
                    who = from.to_string();
                }
                if self.tf.get(&d).map(|t| t.creator.as_str()) != Some(from) {
                    return Err("not denom admin".into());
                }
                if v == 0 {
                    return Err("zero burn".into());
                }
                self.transfer(ctx, &who, TF_MODULE, &[(d.clone(), v)])?;
                let b = self.bal(TF_MODULE, &d);
                self.set_bal(TF_MODULE, &d, b - v);
                Ok((Some(Binary::default()), vec![]))
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook" => {
                need_sender(1)?;
                let d = pb_str(&f, 2);
                let a = pb_str(&f, 3);
                match Arc::make_mut(&mut self.tf).get_mut(&d) {
                    Some(t) if t.creator == from => t.hook = if a.is_empty() { None } else { Some(a) },
                    _ => return Err("not denom admin".into()),
                }
                Ok((Some(Binary::default()), vec![]))
            }
            _ => {
                ctx.tx.out.push((url.to_string(), val.to_vec()));
                Ok((Some(Binary::default()), vec![]))
            }
        }
    }

    // ------------------------------------------------------------ transactions (atomic)
    pub(crate) fn tx<T>(&mut self, ctx: &mut Ctx, f: impl FnOnce(&mut World, &mut Ctx) -> Result<T, String>) -> Result<T, String> {
        let snap = self.clone();
        let r = quiet(|| f(self, ctx)).and_then(|x| x);
        if r.is_err() {
            *self = snap;
        }
        r
    }
    pub fn exec_raw(&mut self, ctx: &mut Ctx, sender: &str, a: &str, msg: &[u8], funds: &[Coin]) -> Result<(), String> {
        self.tx(ctx, |w, c| w.execute_in(c, sender, a, msg, funds).map(|_| ()))
    }
    pub fn exec(&mut self, sender: &str, a: &str, msg: &impl Serialize, funds: &[Coin]) -> Result<Tx, String> {
        let m = cosmwasm_std::to_json_vec(msg).map_err(|e| e.to_string())?;
        let mut ctx = Ctx::default();
        self.exec_raw(&mut ctx, sender, a, &m, funds)?;
        Ok(ctx.tx)
    }
    pub fn exec_json(&mut self, sender: &str, a: &str, msg: serde_json::Value, funds: &[Coin]) -> Result<Tx, String> {
        let mut ctx = Ctx::default();
        self.exec_raw(&mut ctx, sender, a, &serde_json::to_vec(&msg).unwrap(), funds)?;
        Ok(ctx.tx)
    }
    pub fn init(&mut self, sender: &str, code: u64, msg: &impl Serialize, funds: &[Coin]) -> Result<String, String> {
        let m = cosmwasm_std::to_json_vec(msg).map_err(|e| e.to_string())?;
        let mut ctx = Ctx::default();
        let s = sender.to_string();
        self.tx(&mut ctx, |w, c| w.instantiate_in(c, &s, code, &m, funds, Some(s.clone())).map(|x| x.0))
    }
    pub fn sudo(&mut self, a: &str, msg: serde_json::Value) -> Result<(), String> {
        let mut ctx = Ctx::default();
        self.tx(&mut ctx, |w, c| w.sudo_in(c, a, &serde_json::to_vec(&msg).unwrap()))
    }
    pub fn migrate(&mut self, a: &str, code: u64, msg: serde_json::Value) -> Result<(), String> {
        let mut ctx = Ctx::default();
        self.tx(&mut ctx, |w, c| {
            w.contracts.get_mut(a).ok_or("no contract")?.code = code;
            let m = serde_json::to_vec(&msg).unwrap();
            let r = w.with_contract(a, |cd, s, q, e| (cd.migrate.ok_or("no migrate")?)(s, q, e, &m))?;
            w.process(c, a, r).map(|_| ())
        })
    }
    pub fn send(&mut self, from: &str, to: &str, denom: &str, v: u128) -> Result<(), String> {
        let mut ctx = Ctx::default();
        self.tx(&mut ctx, |w, c| w.transfer(c, from, to, &[(denom.to_string(), v)]))
    }
    /// token factory denom made by hand, with an account as its admin
    pub fn tf_new(&mut self, admin: &str, sub: &str, hook: Option<&str>) -> String {
        let d = format!("factory/{admin}/{sub}");
        Arc::make_mut(&mut self.tf).insert(d.clone(), Tf { creator: admin.into(), hook: hook.map(|x| x.to_string()) });
        d
    }
    pub fn tf_hook(&mut self, denom: &str, hook: &str) {
        Arc::make_mut(&mut self.tf).get_mut(denom).unwrap().hook = Some(hook.into());
    }
    pub fn tf_mint(&mut self, admin: &str, denom: &str, v: u128, to: &str) -> Result<(), String> {
        let mut ctx = Ctx::default();
        let mut c = pb_field(1, denom.as_bytes());
        c.extend(pb_field(2, v.to_string().as_bytes()));
        let mut m = pb_field(1, admin.as_bytes());
        m.extend(pb_field(2, &c));
        m.extend(pb_field(3, to.as_bytes()));
        self.tx(&mut ctx, |w, x| w.stargate(x, admin, "/osmosis.tokenfactory.v1beta1.MsgMint", &m).map(|_| ()))
    }
    pub fn tf_burn(&mut self, admin: &str, denom: &str, v: u128, from: &str) -> Result<(), String> {
        let mut ctx = Ctx::default();
        let mut c = pb_field(1, denom.as_bytes());
        c.extend(pb_field(2, v.to_string().as_bytes()));
        let mut m = pb_field(1, admin.as_bytes());
        m.extend(pb_field(2, &c));
        m.extend(pb_field(3, from.as_bytes()));
        self.tx(&mut ctx, |w, x| w.stargate(x, admin, "/osmosis.tokenfactory.v1beta1.MsgBurn", &m).map(|_| ()))
    }
    // cw20 helpers
    pub fn cw20_bal(&self, token: &str, who: &str) -> u128 {
        // cw20-base keeps Map "balance"
        let mut k = vec![0u8, 7];
        k.extend_from_slice(b"balance");
        k.extend_from_slice(who.as_bytes());
        self.contracts
            .get(token)
            .and_then(|c| c.storage.get(&k))
            .map(|v| from_json::<Uint128>(v).unwrap().u128())
            .unwrap_or(0)
    }
}
pub fn coin(a: u128, d: &str) -> Coin {
    cosmwasm_std::coin(a, d)
}
/// the coins with non-zero amounts
pub fn coins(c: &[(u128, &str)]) -> Vec<Coin> {
    c.iter().filter(|x| x.0 > 0).map(|x| coin(x.0, x.1)).collect()
}
