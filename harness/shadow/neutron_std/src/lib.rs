pub mod types {
    pub mod cosmos {
        pub mod base {
            pub mod query {
                pub mod v1beta1 {
                    use serde::{Deserialize, Serialize};
                    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
                    pub struct PageRequest {
                        pub key: Vec<u8>,
                        pub offset: u64,
                        pub limit: u64,
                        pub count_total: bool,
                        pub reverse: bool,
                    }
                }
            }
            pub mod v1beta1 {
                use serde::{Deserialize, Serialize};
                #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
                pub struct Coin {
                    pub denom: String,
                    pub amount: String,
                }
            }
        }
    }
    pub mod neutron {
        pub mod dex {
            use crate::types::cosmos::base::query::v1beta1::PageRequest;
            use crate::types::cosmos::base::v1beta1::Coin;
            use cosmwasm_std::{to_json_binary, Binary, CosmosMsg, Empty, QuerierWrapper, QueryRequest, StdResult};
            use serde::{Deserialize, Serialize};

            #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
            pub struct MsgPlaceLimitOrder {
                pub creator: String,
                pub receiver: String,
                pub token_in: String,
                pub token_out: String,
                pub tick_index_in_to_out: i64,
                pub amount_in: String,
                pub order_type: i32,
                pub expiration_time: Option<String>,
                pub max_amount_out: Option<String>,
                pub limit_sell_price: Option<String>,
                pub min_average_sell_price: Option<String>,
            }
            #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
            pub struct MsgCancelLimitOrder {
                pub creator: String,
                pub tranche_key: String,
            }
            #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
            pub struct MsgCancelLimitOrderResponse {
                pub taker_coin_out: Option<Coin>,
                pub maker_coin_out: Option<Coin>,
            }
            #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
            pub struct QuerySimulateCancelLimitOrderRequest {
                pub msg: Option<MsgCancelLimitOrder>,
            }
            #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
            pub struct QuerySimulateCancelLimitOrderResponse {
                pub resp: Option<MsgCancelLimitOrderResponse>,
            }
            #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
            pub struct QueryAllLimitOrderTrancheUserByAddressRequest {
                pub address: String,
                pub pagination: Option<PageRequest>,
            }
            impl From<MsgPlaceLimitOrder> for CosmosMsg<Empty> {
                fn from(m: MsgPlaceLimitOrder) -> Self {
                    CosmosMsg::Stargate { type_url: "/neutron.dex.MsgPlaceLimitOrder".into(), value: to_json_binary(&m).unwrap() }
                }
            }
            impl From<MsgCancelLimitOrder> for CosmosMsg<Empty> {
                fn from(m: MsgCancelLimitOrder) -> Self {
                    CosmosMsg::Stargate { type_url: "/neutron.dex.MsgCancelLimitOrder".into(), value: to_json_binary(&m).unwrap() }
                }
            }
            impl From<QueryAllLimitOrderTrancheUserByAddressRequest> for Binary {
                fn from(m: QueryAllLimitOrderTrancheUserByAddressRequest) -> Self {
                    to_json_binary(&m).unwrap()
                }
            }
            pub struct DexQuerier<'a> {
                querier: &'a QuerierWrapper<'a, Empty>,
            }
            impl<'a> DexQuerier<'a> {
                pub fn new(querier: &'a QuerierWrapper<'a, Empty>) -> Self {
                    Self { querier }
                }
                pub fn simulate_cancel_limit_order(&self, msg: Option<MsgCancelLimitOrder>) -> StdResult<QuerySimulateCancelLimitOrderResponse> {
                    self.querier.query(&QueryRequest::<Empty>::Stargate {
                        path: "/neutron.dex.Query/SimulateCancelLimitOrder".into(),
                        data: to_json_binary(&QuerySimulateCancelLimitOrderRequest { msg })?,
                    })
                }
            }
        }
    }
}
