From a2bd92bc3ddd28e085a0d2772f3c1c9dbe502864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 01/29] fix: refuse coins sent with a deposit that are not
 among its declared assets

assert_coins_properly_sent compared the sent coins with the pool's assets instead of
the input assets, so that a transmuter deposit naming one asset silently swallowed
another pool asset attached to it.
---
 packages/astroport/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/astroport/src/asset.rs b/packages/astroport/src/asset.rs
index 907050c..fdccf40 100644
--- a/packages/astroport/src/asset.rs
+++ b/packages/astroport/src/asset.rs
@@ -338,9 +338,10 @@ impl CoinsExt for Vec<Coin> {
         })?;
 
         self.iter().try_for_each(|coin| {
-            if pool_asset_infos.contains(&AssetInfo::NativeToken {
+            let coin_info = AssetInfo::NativeToken {
                 denom: coin.denom.clone(),
-            }) {
+            };
+            if input_assets.iter().any(|asset| asset.info == coin_info) {
                 Ok(())
             } else {
                 Err(StdError::generic_err(format!(
-- 
2.43.0


From 2c5054587e8114a6e6534feec007897b732615ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 02/29] fix: honour min_lp_to_receive and min_assets_to_receive
 in sale tax pools

---
 contracts/pair_xyk_sale_tax/src/contract.rs | 61 ++++++++++++++++++++-
 contracts/pair_xyk_sale_tax/src/error.rs    | 15 ++++-
 2 files changed, 73 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_xyk_sale_tax/src/contract.rs b/contracts/pair_xyk_sale_tax/src/contract.rs
index 2e889d8..9d06651 100644
--- a/contracts/pair_xyk_sale_tax/src/contract.rs
+++ b/contracts/pair_xyk_sale_tax/src/contract.rs
@@ -229,7 +229,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
-            ..
+            min_lp_to_receive,
         } => provide_liquidity(
             deps,
             env,
@@ -238,6 +238,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
+            min_lp_to_receive,
         ),
         ExecuteMsg::Swap {
             offer_asset,
@@ -265,7 +266,10 @@ pub fn execute(
             )
         }
         ExecuteMsg::UpdateConfig { params } => update_config(deps, info, params),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NonSupported {}),
     }
 }
@@ -335,7 +339,10 @@ pub fn receive_cw20(
 /// * **receiver** is an optional parameter which defines the receiver of the LP tokens.
 /// If no custom receiver is specified, the pair will mint LP tokens for the function caller.
 ///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
+///
 /// NOTE - the address that wants to provide liquidity should approve the pair contract to pull its relevant tokens.
+#[allow(clippy::too_many_arguments)]
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
@@ -344,6 +351,7 @@ pub fn provide_liquidity(
     slippage_tolerance: Option<Decimal>,
     auto_stake: Option<bool>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -394,6 +402,15 @@ pub fn provide_liquidity(
         )?);
     }
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
+
     // Mint LP tokens for the sender or for the receiver (if set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
     messages.extend(mint_liquidity_token_message(
@@ -492,6 +509,7 @@ pub fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage).unwrap();
 
@@ -512,6 +530,8 @@ pub fn withdraw_liquidity(
         return Err(StdError::generic_err("Imbalanced withdraw is currently disabled").into());
     };
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     if config.track_asset_balances {
         for (i, pool) in pools.iter().enumerate() {
             BALANCES.save(
@@ -1477,6 +1497,43 @@ pub fn pool_info(querier: QuerierWrapper, config: &Config) -> StdResult<(Vec<Ass
     Ok((pools, total_share))
 }
 
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    let Some(min_assets_to_receive) = min_assets_to_receive else {
+        return Ok(());
+    };
+
+    if refund_assets.len() != min_assets_to_receive.len() {
+        return Err(ContractError::WrongAssetLength {
+            expected: refund_assets.len(),
+            actual: min_assets_to_receive.len(),
+        });
+    }
+
+    if min_assets_to_receive[0].info == min_assets_to_receive[1].info {
+        return Err(ContractError::DoublingAssets {});
+    }
+
+    for expected in &min_assets_to_receive {
+        let refund = refund_assets
+            .iter()
+            .find(|asset| asset.info == expected.info)
+            .ok_or(ContractError::AssetMismatch {})?;
+
+        if refund.amount < expected.amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: expected.info.to_string(),
+                received: refund.amount,
+                expected: expected.amount,
+            });
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use cosmwasm_std::{Addr, Decimal, Uint128};
diff --git a/contracts/pair_xyk_sale_tax/src/error.rs b/contracts/pair_xyk_sale_tax/src/error.rs
index cfdb47e..30d230d 100644
--- a/contracts/pair_xyk_sale_tax/src/error.rs
+++ b/contracts/pair_xyk_sale_tax/src/error.rs
@@ -1,5 +1,5 @@
 use astroport::asset::MINIMUM_LIQUIDITY_AMOUNT;
-use cosmwasm_std::{OverflowError, StdError};
+use cosmwasm_std::{OverflowError, StdError, Uint128};
 use cw_utils::{ParseReplyError, PaymentError};
 use thiserror::Error;
 
@@ -36,6 +36,19 @@ pub enum ContractError {
     #[error("Operation exceeds max splippage tolerance")]
     MaxSlippageAssertion {},
 
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Doubling assets in asset infos")]
     DoublingAssets {},
 
-- 
2.43.0


From f657ac483eee4f188940eafd5f98120b686db97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 03/29] fix: refuse duplicated assets in min_assets_to_receive

---
 contracts/pair/src/contract.rs        | 4 ++++
 contracts/pair_stable/src/contract.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/contracts/pair/src/contract.rs b/contracts/pair/src/contract.rs
index 6c07b57..8ce8c0e 100644
--- a/contracts/pair/src/contract.rs
+++ b/contracts/pair/src/contract.rs
@@ -1454,6 +1454,10 @@ fn ensure_min_assets_to_receive(
             }
         }
 
+        if min_assets_to_receive[0].info == min_assets_to_receive[1].info {
+            return Err(ContractError::DoublingAssets {});
+        }
+
         if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
             refund_assets.swap(0, 1)
         }
diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 332edbc..470b541 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -1226,6 +1226,10 @@ fn ensure_min_assets_to_receive(
             }
         }
 
+        if min_assets_to_receive[0].info == min_assets_to_receive[1].info {
+            return Err(ContractError::DoublingAssets {});
+        }
+
         if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
             refund_assets.swap(0, 1)
         }
-- 
2.43.0


From 446580ec785af8a9303f06476f645d9dc95eed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 04/29] fix: honour min_assets_to_receive in concentrated pools

---
 contracts/pair_concentrated/src/contract.rs | 46 ++++++++++++++++++++-
 contracts/pair_concentrated/src/error.rs    |  7 ++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 3d5dfb6..d404d32 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -36,6 +36,7 @@ use astroport::token_factory::{
 };
 use astroport::tokenfactory_tracker;
 use astroport_circular_buffer::BufferManager;
+use astroport_pcl_common::error::PclError;
 use astroport_pcl_common::state::{
     AmpGamma, Config, PoolParams, PoolState, Precisions, PriceState,
 };
@@ -366,7 +367,10 @@ pub fn execute(
             })
             .map_err(Into::into)
         }
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -552,11 +556,14 @@ pub fn provide_liquidity(
 /// * **sender** address that will receive assets back from the pair contract
 ///
 /// * **assets** defines number of coins a user wants to withdraw per each asset.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts to receive.
 fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -610,6 +617,8 @@ fn withdraw_liquidity(
         })
         .collect::<StdResult<Vec<_>>>()?;
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     messages.extend(
         refund_assets
             .iter()
@@ -646,6 +655,41 @@ fn withdraw_liquidity(
     ]))
 }
 
+/// Ensures that a withdrawal pays at least the assets requested by the user.
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    let Some(min_assets_to_receive) = min_assets_to_receive else {
+        return Ok(());
+    };
+
+    if refund_assets.len() != min_assets_to_receive.len() {
+        return Err(ContractError::InvalidNumberOfAssets(refund_assets.len()));
+    }
+
+    if min_assets_to_receive[0].info == min_assets_to_receive[1].info {
+        return Err(ContractError::PclError(PclError::DoublingAssets {}));
+    }
+
+    for expected in &min_assets_to_receive {
+        let refund = refund_assets
+            .iter()
+            .find(|asset| asset.info == expected.info)
+            .ok_or_else(|| ContractError::InvalidAsset(expected.info.to_string()))?;
+
+        if refund.amount < expected.amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: expected.info.to_string(),
+                received: refund.amount,
+                expected: expected.amount,
+            });
+        }
+    }
+
+    Ok(())
+}
+
 /// Performs an swap operation with the specified parameters. The trader must approve the
 /// pool contract to transfer offer assets from their wallet.
 ///
diff --git a/contracts/pair_concentrated/src/error.rs b/contracts/pair_concentrated/src/error.rs
index b4e0cd5..fe5536b 100644
--- a/contracts/pair_concentrated/src/error.rs
+++ b/contracts/pair_concentrated/src/error.rs
@@ -70,6 +70,13 @@ pub enum ContractError {
     #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
     ProvideSlippageViolation(Uint128, Uint128),
 
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
     #[error("Operation is not supported")]
     NotSupported {},
 }
-- 
2.43.0


From 756746ebb3afab50da7f22825f57a2c009882986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 05/29] fix: honour min_lp_to_receive and min_assets_to_receive
 in transmuter pools

---
 contracts/pair_transmuter/src/contract.rs | 56 ++++++++++++++++++++++-
 contracts/pair_transmuter/src/error.rs    | 10 ++++
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_transmuter/src/contract.rs b/contracts/pair_transmuter/src/contract.rs
index ae87870..52f1187 100644
--- a/contracts/pair_transmuter/src/contract.rs
+++ b/contracts/pair_transmuter/src/contract.rs
@@ -108,6 +108,7 @@ pub fn execute(
             assets,
             auto_stake,
             receiver,
+            min_lp_to_receive,
             ..
         } => {
             ensure!(
@@ -115,7 +116,7 @@ pub fn execute(
                 StdError::generic_err("Auto stake is not supported")
             );
 
-            provide_liquidity(deps, env, info, assets, receiver)
+            provide_liquidity(deps, env, info, assets, receiver, min_lp_to_receive)
         }
         ExecuteMsg::Swap {
             offer_asset,
@@ -123,7 +124,10 @@ pub fn execute(
             ask_asset_info,
             ..
         } => swap(deps, info, offer_asset, ask_asset_info, to),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -133,11 +137,14 @@ pub fn execute(
 /// All unused LP tokens will be sent back to the sender.
 ///
 /// * **assets** is the vector of assets to withdraw. If this vector is empty, the function will withdraw balanced respective to share.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts to receive.
 pub fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
@@ -201,6 +208,8 @@ pub fn withdraw_liquidity(
         assets
     };
 
+    ensure_min_assets_to_receive(&pools, &refund_assets, min_assets_to_receive)?;
+
     let send_msgs = refund_assets
         .clone()
         .into_iter()
@@ -220,17 +229,51 @@ pub fn withdraw_liquidity(
     ]))
 }
 
+/// Ensures that a withdrawal pays at least the assets requested by the user.
+/// Assets that are not paid out count as zero.
+fn ensure_min_assets_to_receive(
+    pools: &[Asset],
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    for expected in min_assets_to_receive.unwrap_or_default() {
+        ensure!(
+            pools.iter().any(|pool| pool.info == expected.info),
+            ContractError::InvalidAsset(expected.info.to_string())
+        );
+
+        let received = refund_assets
+            .iter()
+            .filter(|asset| asset.info == expected.info)
+            .fold(Uint128::zero(), |acc, asset| acc + asset.amount);
+
+        ensure!(
+            received >= expected.amount,
+            ContractError::WithdrawSlippageViolation {
+                asset_name: expected.info.to_string(),
+                received,
+                expected: expected.amount,
+            }
+        );
+    }
+
+    Ok(())
+}
+
 /// Provides liquidity with the specified input parameters.
 ///
 /// * **assets** vector with assets meant to be provided to the pool.
 ///
 /// * **receiver** address that receives LP tokens. If this address isn't specified, the function will default to the caller.
+///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     check_assets(deps.api, &assets)?;
 
@@ -244,6 +287,15 @@ pub fn provide_liquidity(
         .map(|asset| config.normalize(asset).unwrap())
         .fold(Uint128::zero(), |acc, asset| acc + asset.amount);
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
+
     // Mint LP token for the caller (or for the receiver if it was set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
 
diff --git a/contracts/pair_transmuter/src/error.rs b/contracts/pair_transmuter/src/error.rs
index bf76c08..0d12add 100644
--- a/contracts/pair_transmuter/src/error.rs
+++ b/contracts/pair_transmuter/src/error.rs
@@ -54,6 +54,16 @@ pub enum ContractError {
         available: Uint128,
     },
 
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
     #[error("ask_asset_info must be set for pools with >2 assets")]
     AskAssetMustBeSet {},
 }
-- 
2.43.0


From 257f233d0133df68507c8529a71da0dd7d7354f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 06/29] fix: compare the asked amount with the pool balance in
 the same units in transmuter reverse simulation

---
 contracts/pair_transmuter/src/queries.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/contracts/pair_transmuter/src/queries.rs b/contracts/pair_transmuter/src/queries.rs
index b07f8e8..7b7cab1 100644
--- a/contracts/pair_transmuter/src/queries.rs
+++ b/contracts/pair_transmuter/src/queries.rs
@@ -118,10 +118,8 @@ pub fn reverse_swap(
         .find(|asset| asset.info == ask_asset.info)
         .ok_or_else(|| ContractError::InvalidAsset(ask_asset.info.to_string()))?;
 
-    let ask_asset = config.normalize(&ask_asset)?;
-
     if ask_pool.amount >= ask_asset.amount {
-        let offer_asset = offer_asset_info.with_balance(ask_asset.amount);
+        let offer_asset = offer_asset_info.with_balance(config.normalize(&ask_asset)?.amount);
         config.denormalize(&offer_asset).map(|asset| asset.amount)
     } else {
         Err(ContractError::InsufficientPoolBalance {
-- 
2.43.0


From 172081ccb800160bc8fa5e7b63ae8edae89436a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 07/29] fix: accumulate stable pool prices of the period before
 a deposit without the deposit

---
 contracts/pair_stable/src/contract.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 470b541..8ae31a9 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -392,6 +392,12 @@ pub fn provide_liquidity(
 
     let auto_stake = auto_stake.unwrap_or(false);
 
+    // Prices for the period before this deposit are those of the pool without it
+    let pools = assets_collection
+        .iter()
+        .map(|(deposit, pool)| (deposit.info.clone(), *pool))
+        .collect::<Vec<_>>();
+
     let share = calculate_shares(deps.as_ref(), &env, &config, total_share, assets_collection)?;
 
     if total_share.is_zero() {
-- 
2.43.0


From 54adf98beaa9be1a6e3a356bdf58a0dd4c7c3e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 08/29] fix: average price observations over the values in the
 buffer

---
 contracts/pair_concentrated/src/utils.rs | 5 +++--
 contracts/pair_stable/src/utils.rs       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 4a64a15..eac2a93 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -69,9 +69,10 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value,
+                // which is going to be replaced
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 71341e2..acb1500 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -346,9 +346,10 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value,
+                // which is going to be replaced
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
-- 
2.43.0


From 545999b022050dad4694e3c22a89370ecba241da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 09/29] fix: keep the concentrated pool's mid fee below its out
 fee when only mid_fee is updated

---
 packages/astroport_pcl_common/src/state.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 95d67cd..01a1385 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -98,17 +98,20 @@ impl PoolParams {
 
         if let Some(out_fee) = update_params.out_fee {
             validate_param("out_fee", out_fee, MIN_FEE, MAX_FEE)?;
-            if out_fee <= self.mid_fee {
-                return Err(StdError::generic_err(format!(
-                    "out_fee {out_fee} must be more than mid_fee {}",
-                    self.mid_fee
-                ))
-                .into());
-            }
             self.out_fee = out_fee;
             attributes.push(attr("out_fee", out_fee.to_string()));
         }
 
+        if (update_params.mid_fee.is_some() || update_params.out_fee.is_some())
+            && self.out_fee <= self.mid_fee
+        {
+            return Err(StdError::generic_err(format!(
+                "out_fee {} must be more than mid_fee {}",
+                self.out_fee, self.mid_fee
+            ))
+            .into());
+        }
+
         if let Some(fee_gamma) = update_params.fee_gamma {
             validate_param("fee_gamma", fee_gamma, FEE_GAMMA_MIN, FEE_GAMMA_MAX)?;
             self.fee_gamma = fee_gamma;
-- 
2.43.0


From 106dfd1ab00d8245db30308617f08ee21a98b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 10/29] fix: allow the documented maximum amplification of
 100000 in concentrated pools

---
 packages/astroport_pcl_common/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/consts.rs b/packages/astroport_pcl_common/src/consts.rs
index 66cb56b..7c743d3 100644
--- a/packages/astroport_pcl_common/src/consts.rs
+++ b/packages/astroport_pcl_common/src/consts.rs
@@ -48,7 +48,7 @@ pub const MA_HALF_TIME_LIMITS: RangeInclusive<u64> = 1..=(7 * 86400);
 /// 0.1
 pub const AMP_MIN: Decimal = Decimal::raw(1e17 as u128);
 /// 100000
-pub const AMP_MAX: Decimal = Decimal::raw(1e23 as u128);
+pub const AMP_MAX: Decimal = Decimal::raw(100_000_000_000_000_000_000_000);
 
 /// 0.00000001
 pub const GAMMA_MIN: Decimal = Decimal::raw(10000000000);
-- 
2.43.0


From 3493296352cad671a1953d0f2766a28d71d0bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 11/29] fix: do not divide by zero when the concentrated pool's
 oracle price equals its price scale and min_price_scale_delta is zero

---
 packages/astroport_pcl_common/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 01a1385..1d01930 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -358,7 +358,9 @@ impl PoolState {
         let scale_delta = Decimal256::from(pool_params.min_price_scale_delta)
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
-        if norm >= scale_delta
+        // If the oracle price equals the price scale, there is nothing to move
+        if !norm.is_zero()
+            && norm >= scale_delta
             && price_state.xcp_profit_real - Decimal256::one()
                 > (xcp_profit - Decimal256::one()) / TWO
                     + Decimal256::from(pool_params.repeg_profit_threshold)
-- 
2.43.0


From e81a167285939d468a659bff5550db912c058705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 12/29] fix: xastro_token: refuse duplicate initial balance
 addresses

---
 contracts/tokenomics/xastro_token/src/contract.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/tokenomics/xastro_token/src/contract.rs b/contracts/tokenomics/xastro_token/src/contract.rs
index c49495e..8a8b7c0 100644
--- a/contracts/tokenomics/xastro_token/src/contract.rs
+++ b/contracts/tokenomics/xastro_token/src/contract.rs
@@ -177,6 +177,9 @@ pub fn create_accounts(deps: &mut DepsMut, env: &Env, accounts: &[Cw20Coin]) ->
 
     for row in accounts {
         let address = deps.api.addr_validate(&row.address)?;
+        if BALANCES.may_load(deps.storage, &address)?.is_some() {
+            return Err(StdError::generic_err("Duplicate initial balance addresses"));
+        }
         BALANCES.save(deps.storage, &address, &row.amount, env.block.height)?;
         total_supply += row.amount;
     }
-- 
2.43.0


From d2b168b358768d85b002132882704075b2f3dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 13/29] fix: pair_xastro: predict the first stake into a
 staking contract that already holds ASTRO

---
 contracts/pair_xastro/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 853c57f..0bcc4a7 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -190,7 +190,7 @@ pub fn predict_stake(
 ) -> Result<Uint128, ContractError> {
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
-    if total_deposit.is_zero() {
+    if total_deposit.is_zero() || total_shares.is_zero() {
         if amount.saturating_sub(MINIMUM_STAKE_AMOUNT).is_zero() {
             return Err(ContractError::MinimumStakeAmountError {});
         }
-- 
2.43.0


From 9ad33199f6e18ac43a40b8f20b865013de1a6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 14/29] fix: pair_xastro: quote reverse simulations for more
 xASTRO than currently exists

---
 contracts/pair_xastro/src/contract.rs | 20 ++++++++++++++++++++
 contracts/pair_xastro/src/queries.rs  |  4 ++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 0bcc4a7..e611745 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -201,6 +201,26 @@ pub fn predict_stake(
     }
 }
 
+/// Predicts how much ASTRO must be staked to receive the given amount of xASTRO.
+/// New xASTRO is minted, so the amount is not limited by the current xASTRO supply.
+pub fn predict_stake_offer(
+    querier: QuerierWrapper,
+    config: &Config,
+    amount: Uint128,
+) -> Result<Uint128, ContractError> {
+    let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
+
+    ensure!(
+        !total_shares.is_zero(),
+        ContractError::InvalidUnstakeAmount {
+            want: amount,
+            total: total_shares
+        }
+    );
+
+    Ok(amount.multiply_ratio(total_deposit, total_shares))
+}
+
 pub fn predict_unstake(
     querier: QuerierWrapper,
     config: &Config,
diff --git a/contracts/pair_xastro/src/queries.rs b/contracts/pair_xastro/src/queries.rs
index be4be55..7cf43b0 100644
--- a/contracts/pair_xastro/src/queries.rs
+++ b/contracts/pair_xastro/src/queries.rs
@@ -6,7 +6,7 @@ use astroport::pair::{
 };
 use astroport::querier::query_factory_config;
 
-use crate::contract::{predict_stake, predict_unstake};
+use crate::contract::{predict_stake, predict_stake_offer, predict_unstake};
 use crate::error::ContractError;
 use crate::state::{Config, CONFIG};
 
@@ -43,7 +43,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
                     predict_stake(deps.querier, &config, ask_asset.amount)
                 }
                 AssetInfo::NativeToken { denom } if denom == &config.xastro_denom => {
-                    predict_unstake(deps.querier, &config, ask_asset.amount)
+                    predict_stake_offer(deps.querier, &config, ask_asset.amount)
                 }
                 _ => Err(ContractError::InvalidAsset(ask_asset.info.to_string())),
             }?;
-- 
2.43.0


From d74859f8e2967716e84008fec8f229fd2663b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 15/29] fix: router: keep the data of nested routes in a stack
 so that each enforces its own minimum

---
 contracts/router/src/contract.rs | 26 ++++++++++++++++----------
 contracts/router/src/state.rs    |  3 ++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/contracts/router/src/contract.rs b/contracts/router/src/contract.rs
index 16ca889..fc62cc2 100644
--- a/contracts/router/src/contract.rs
+++ b/contracts/router/src/contract.rs
@@ -181,15 +181,16 @@ pub fn execute_swap_operations(
         .collect::<StdResult<Vec<_>>>()?;
 
     let prev_balance = target_asset_info.query_pool(&deps.querier, &to)?;
-    REPLY_DATA.save(
-        deps.storage,
-        &ReplyData {
-            asset_info: target_asset_info,
-            prev_balance,
-            minimum_receive,
-            receiver: to.to_string(),
-        },
-    )?;
+    // A token or a pair may call the router again while this route is being executed,
+    // so the data of the routes in progress is kept in a stack.
+    let mut reply_data = REPLY_DATA.may_load(deps.storage)?.unwrap_or_default();
+    reply_data.push(ReplyData {
+        asset_info: target_asset_info,
+        prev_balance,
+        minimum_receive,
+        receiver: to.to_string(),
+    });
+    REPLY_DATA.save(deps.storage, &reply_data)?;
 
     Ok(Response::new().add_submessages(messages))
 }
@@ -201,7 +202,12 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
             id: AFTER_SWAP_REPLY_ID,
             result: SubMsgResult::Ok(..),
         } => {
-            let reply_data = REPLY_DATA.load(deps.storage)?;
+            let mut stack = REPLY_DATA.load(deps.storage)?;
+            let reply_data = stack
+                .pop()
+                .ok_or_else(|| StdError::generic_err("Failed to process reply"))?;
+            REPLY_DATA.save(deps.storage, &stack)?;
+
             let receiver_balance = reply_data
                 .asset_info
                 .query_pool(&deps.querier, reply_data.receiver)?;
diff --git a/contracts/router/src/state.rs b/contracts/router/src/state.rs
index ea34fef..1b8edfb 100644
--- a/contracts/router/src/state.rs
+++ b/contracts/router/src/state.rs
@@ -13,7 +13,8 @@ pub struct Config {
     pub astroport_factory: Addr,
 }
 
-pub const REPLY_DATA: Item<ReplyData> = Item::new("reply_data");
+/// Stores the data of the routes which are being executed, the innermost one last
+pub const REPLY_DATA: Item<Vec<ReplyData>> = Item::new("reply_data_stack");
 
 #[cw_serde]
 pub struct ReplyData {
-- 
2.43.0


From 378654f3c17832e0287c8f34e86b583b132d0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 16/29] fix: incentives: deactivate a deregistered pool even
 while ASTRO per second is zero

---
 contracts/tokenomics/incentives/src/state.rs |  7 -------
 contracts/tokenomics/incentives/src/utils.rs | 19 ++++++++++---------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..9439dd5 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -227,13 +227,6 @@ impl PoolInfo {
         }
     }
 
-    /// Check whether this pools receiving ASTRO emissions
-    pub fn is_active_pool(&self) -> bool {
-        self.rewards
-            .iter()
-            .any(|r| !r.reward.is_external() && !r.rps.is_zero())
-    }
-
     /// This function disables ASTRO rewards in a specific pool.
     /// We must keep ASTRO schedule even tho reward per second becomes zero
     /// because users still should be able to claim outstanding rewards according to indexes.
diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..5ff7b72 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -112,16 +112,17 @@ pub fn deactivate_pool(
 
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
-    match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
-            let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
-
-            let (ind, _) = active_pools
-                .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+    let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
+
+    // The pool may be active even if it doesn't receive rewards right now (zero ASTRO per second)
+    match active_pools
+        .iter()
+        .position(|(lp_asset, _)| lp_asset == &lp_token_asset)
+    {
+        Some(ind) => {
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_token_asset)?;
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
             pool_info.disable_astro_rewards();
             pool_info.save(deps.storage, &lp_token_asset)?;
@@ -143,7 +144,7 @@ pub fn deactivate_pool(
                 attr("lp_token", lp_token),
             ]))
         }
-        _ => Ok(Response::new()),
+        None => Ok(Response::new()),
     }
 }
 
-- 
2.43.0


From dd98869a2c66408ea2ed2597de1f8de49164a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 17/29] fix: incentives: count a pool once when several of its
 tokens are blocked together

---
 contracts/tokenomics/incentives/src/execute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..7cc8fd6 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,10 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    // A pool may contain several of the tokens to block
+                    if asset_infos.contains(token_to_block)
+                        && !to_disable.iter().any(|(lp, _)| lp == lp_asset)
+                    {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From e740a78b28d099e843537ce2a26449558e5bb28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 18/29] fix: incentives: do not return the orphaned part of a
 removed reward twice

---
 contracts/tokenomics/incentives/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 9439dd5..80a1394 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -372,9 +372,11 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards are returned together with the remaining ones below,
+        // thus they must not be accumulated in ORPHANED_REWARDS
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From d0c9919b510ae27d7aa5e8409cfcde1e89cc7943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 19/29] fix: incentives: forget indexes of rewards removed in
 the block of the last claim

---
 contracts/tokenomics/incentives/src/query.rs |  2 ++
 contracts/tokenomics/incentives/src/state.rs | 22 ++++++++++++++++++++
 contracts/tokenomics/incentives/src/utils.rs |  2 ++
 3 files changed, 26 insertions(+)

diff --git a/contracts/tokenomics/incentives/src/query.rs b/contracts/tokenomics/incentives/src/query.rs
index a5f9e72..a31e696 100644
--- a/contracts/tokenomics/incentives/src/query.rs
+++ b/contracts/tokenomics/incentives/src/query.rs
@@ -173,6 +173,8 @@ pub fn query_pending_rewards(
 
     let mut pos = UserInfo::load_position(deps.storage, &user_addr, &lp_asset)?;
 
+    pos.forget_removed_rewards(deps.storage, &lp_asset)?;
+
     let mut outstanding_rewards =
         pos.claim_finished_rewards(deps.storage, &lp_asset, &pool_info)?;
 
diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 80a1394..b63285c 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -554,6 +554,28 @@ impl UserInfo {
         USER_INFO.may_load(storage, (lp_token, user))
     }
 
+    /// Forget user index for rewards which were removed in the same block after user claimed.
+    /// FINISHED_REWARD_INDEXES contains these rewards under the last claim time, which is not considered
+    /// when outstanding rewards are calculated, because user has already received everything.
+    /// However, if such a reward is incentivized again, its index starts from 0.
+    pub fn forget_removed_rewards(
+        &mut self,
+        storage: &dyn Storage,
+        lp_token: &AssetInfo,
+    ) -> StdResult<()> {
+        let removed = FINISHED_REWARD_INDEXES
+            .may_load(storage, (lp_token, self.last_claim_time))?
+            .unwrap_or_default();
+
+        for (reward, index) in self.last_rewards_index.iter_mut() {
+            if reward.is_external() && removed.iter().any(|(info, _)| info == reward.asset_info()) {
+                *index = Decimal256::zero();
+            }
+        }
+
+        Ok(())
+    }
+
     /// Reset user index for all finished rewards.
     /// This function is called after processing finished schedules and before processing active
     /// schedules for a specific user.
diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index 5ff7b72..6394237 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -36,6 +36,8 @@ pub fn claim_rewards(
 
         pool_info.update_rewards(storage, &env, lp_token_asset)?;
 
+        pos.forget_removed_rewards(storage, lp_token_asset)?;
+
         // Claim outstanding rewards from finished schedules
         for finished_reward in pos.claim_finished_rewards(storage, lp_token_asset, pool_info)? {
             if !finished_reward.amount.is_zero() {
-- 
2.43.0


From 2a500793bdc77e2eeb0e29889e8ec0a51c315640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 20/29] fix: incentives: keep all reward indexes of a pool
 finished in the same block

---
 contracts/tokenomics/incentives/src/state.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index b63285c..aa114d8 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -445,14 +445,15 @@ impl PoolInfo {
                 .into_iter()
                 .try_for_each(|(is_zero, group)| {
                     if is_zero {
-                        let finished_indexes = group
-                            .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
-                            .collect_vec();
-                        FINISHED_REWARD_INDEXES.save(
-                            storage,
-                            (lp_token, self.last_update_ts),
-                            &finished_indexes,
-                        )
+                        let key = (lp_token, self.last_update_ts);
+                        // Other rewards of this pool could have been finished in the same block
+                        let mut finished_indexes = FINISHED_REWARD_INDEXES
+                            .may_load(storage, key)?
+                            .unwrap_or_default();
+                        finished_indexes.extend(
+                            group.map(|(reward_asset_info, (index, _))| (reward_asset_info, index)),
+                        );
+                        FINISHED_REWARD_INDEXES.save(storage, key, &finished_indexes)
                     } else {
                         // Processing finished schedules with orphaned rewards
                         for (reward, (_, orphaned_amount)) in group {
-- 
2.43.0


From 2a06a7c34b0d60576c25f6459e41eb6db7fc1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 21/29] fix: incentives: drop bypassed schedules when a removed
 reward is incentivized again

---
 contracts/tokenomics/incentives/src/state.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index aa114d8..f5cab1f 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -342,6 +342,22 @@ impl PoolInfo {
             // New schedule anyway hits an active one
             active_schedule.rps += schedule.rps;
         } else {
+            // Upcoming schedules could have been bypassed when this reward was removed from the pool.
+            // They are not backed by the new schedule, thus must not be picked up after it ends
+            let bypassed_schedules = EXTERNAL_REWARD_SCHEDULES
+                .prefix((lp_asset, &schedule.reward_info))
+                .keys(
+                    storage,
+                    Some(Bound::exclusive(self.last_update_ts)),
+                    None,
+                    Order::Ascending,
+                )
+                .collect::<StdResult<Vec<_>>>()?;
+            for update_ts in bypassed_schedules {
+                EXTERNAL_REWARD_SCHEDULES
+                    .remove(storage, (lp_asset, &schedule.reward_info, update_ts));
+            }
+
             self.rewards.push(RewardInfo {
                 reward: RewardType::Ext {
                     info: schedule.reward_info.clone(),
-- 
2.43.0


From 31c2da1fcbb9dbcb33548d4596932963cdff3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 22/29] fix: incentives: honour the requested and the maximum
 page size in listings

---
 contracts/tokenomics/incentives/src/query.rs | 4 ++--
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/query.rs b/contracts/tokenomics/incentives/src/query.rs
index a31e696..1ebc1d5 100644
--- a/contracts/tokenomics/incentives/src/query.rs
+++ b/contracts/tokenomics/incentives/src/query.rs
@@ -120,7 +120,7 @@ fn list_pools(
     start_after: Option<String>,
     limit: Option<u8>,
 ) -> StdResult<Vec<String>> {
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT) as usize;
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT) as usize;
     POOLS
         .keys_raw(
             deps.storage,
@@ -142,7 +142,7 @@ fn query_blocked_tokens(
     start_after: Option<AssetInfo>,
     limit: Option<u8>,
 ) -> StdResult<Vec<AssetInfo>> {
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT) as usize;
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT) as usize;
     if let Some(start_after) = start_after {
         let asset_key = asset_info_key(&start_after);
         BLOCKED_TOKENS.range(
diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index f5cab1f..7a4131b 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -508,7 +508,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0


From 8a887c19426be5d9c0c095f55dd7c00ba95828a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 23/29] fix: incentives: keep the limit of reward tokens when
 ASTRO exceeded it

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 7a4131b..6c4df55 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -273,7 +273,7 @@ impl PoolInfo {
 
         // Check that we don't exceed the maximum number of reward tokens per pool.
         // Allowing ASTRO reward to exceed this limit
-        if ext_rewards_len == MAX_REWARD_TOKENS as usize
+        if ext_rewards_len >= MAX_REWARD_TOKENS as usize
             && maybe_active_schedule.is_none()
             && schedule.reward_info.ne(astro_token)
         {
-- 
2.43.0


From 0d12d34d543a51937411993978fdb111f28bf2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 24/29] fix: maker: send only the swapped amount to the dev
 fund

---
 contracts/tokenomics/maker/src/contract.rs | 11 ++++++++++-
 contracts/tokenomics/maker/src/reply.rs    |  6 ++++--
 contracts/tokenomics/maker/src/state.rs    |  3 +++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index 283fe45..65ab27b 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -22,7 +22,9 @@ use astroport::pair::MAX_ALLOWED_SLIPPAGE;
 use crate::error::ContractError;
 use crate::migration::migrate_from_v120_plus;
 use crate::reply::PROCESS_DEV_FUND_REPLY_ID;
-use crate::state::{BRIDGES, CONFIG, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG};
+use crate::state::{
+    BRIDGES, CONFIG, DEV_FUND_BALANCE_BEFORE, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG,
+};
 use crate::utils::{
     build_distribute_msg, build_send_msg, build_swap_msg, get_pool, try_build_swap_msg,
     update_second_receiver_cfg, validate_bridge, validate_cooldown, BRIDGES_EXECUTION_MAX_DEPTH,
@@ -663,6 +665,13 @@ fn distribute(
                 Some(&dev_fund_conf.asset_info),
                 dev_share,
             )?;
+            // Collected fees in the same asset must not be sent to the dev fund
+            DEV_FUND_BALANCE_BEFORE.save(
+                deps.storage,
+                &dev_fund_conf
+                    .asset_info
+                    .query_pool(&deps.querier, &env.contract.address)?,
+            )?;
             swap_msg.reply_on = ReplyOn::Success;
             swap_msg.id = PROCESS_DEV_FUND_REPLY_ID;
 
diff --git a/contracts/tokenomics/maker/src/reply.rs b/contracts/tokenomics/maker/src/reply.rs
index 0391765..8817a18 100644
--- a/contracts/tokenomics/maker/src/reply.rs
+++ b/contracts/tokenomics/maker/src/reply.rs
@@ -1,4 +1,4 @@
-use crate::state::CONFIG;
+use crate::state::{CONFIG, DEV_FUND_BALANCE_BEFORE};
 use astroport::asset::AssetInfoExt;
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
@@ -13,9 +13,11 @@ pub fn reply(deps: DepsMut, env: Env, msg: Reply) -> StdResult<Response> {
             let config = CONFIG.load(deps.storage)?;
             let dev_fund_conf = config.dev_fund_conf.expect("Dev fund config must be set");
 
+            let balance_before = DEV_FUND_BALANCE_BEFORE.load(deps.storage)?;
             let amount = dev_fund_conf
                 .asset_info
-                .query_pool(&deps.querier, env.contract.address)?;
+                .query_pool(&deps.querier, env.contract.address)?
+                .checked_sub(balance_before)?;
             let dev_fee = dev_fund_conf.asset_info.with_balance(amount);
 
             Ok(Response::new()
diff --git a/contracts/tokenomics/maker/src/state.rs b/contracts/tokenomics/maker/src/state.rs
index 75eec72..790c50a 100644
--- a/contracts/tokenomics/maker/src/state.rs
+++ b/contracts/tokenomics/maker/src/state.rs
@@ -1,6 +1,7 @@
 use astroport::asset::AssetInfo;
 use astroport::common::OwnershipProposal;
 use astroport::maker::{Config, SeizeConfig};
+use cosmwasm_std::Uint128;
 use cw_storage_plus::{Item, Map};
 
 /// Stores the contract configuration at the given key
@@ -15,3 +16,5 @@ pub const BRIDGES: Map<String, AssetInfo> = Map::new("bridges");
 pub const LAST_COLLECT_TS: Item<u64> = Item::new("last_collect_ts");
 /// Stores seize config
 pub const SEIZE_CONFIG: Item<SeizeConfig> = Item::new("seize_config");
+/// Balance of the dev fund asset right before ASTRO is swapped for the dev fund
+pub const DEV_FUND_BALANCE_BEFORE: Item<Uint128> = Item::new("dev_fund_balance_before");
-- 
2.43.0


From b153ce4d22d9a25a8efe4bb8de938203341cea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 25/29] fix: maker: distribute pre-upgrade rewards smaller than
 the number of blocks

---
 contracts/tokenomics/maker/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index 65ab27b..e9bc72b 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -582,7 +582,9 @@ fn distribute(
         let mut remainder_reward = cfg.remainder_reward;
         let astro_distribution_portion = cfg
             .pre_upgrade_astro_amount
-            .checked_div(Uint128::from(cfg.pre_upgrade_blocks))?;
+            .checked_div(Uint128::from(cfg.pre_upgrade_blocks))?
+            // Otherwise amounts below the number of blocks would never be distributed
+            .max(Uint128::one());
 
         current_preupgrade_distribution = min(
             Uint128::from(blocks_passed).checked_mul(astro_distribution_portion)?,
-- 
2.43.0


From 3e23074eca88be2bcfa7ffc23fbb6f8af15b7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 26/29] fix: maker: never distribute more than available when
 staking contract is not set

---
 contracts/tokenomics/maker/src/contract.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index e9bc72b..673d09f 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -685,10 +685,12 @@ fn distribute(
         Uint128::zero()
     };
 
+    // Shares must never exceed the distributed amount, even if there are other funds in the contract
+    let staking_amount =
+        amount.checked_sub(governance_amount + second_receiver_amount + dev_amount)?;
     if let Some(staking_contract) = &cfg.staking_contract {
-        let amount = amount.checked_sub(governance_amount + second_receiver_amount + dev_amount)?;
-        if !amount.is_zero() {
-            let to_staking_asset = cfg.astro_token.with_balance(amount);
+        if !staking_amount.is_zero() {
+            let to_staking_asset = cfg.astro_token.with_balance(staking_amount);
             result.push(SubMsg::new(to_staking_asset.into_msg(staking_contract)?));
         }
     }
-- 
2.43.0


From f14de1a3eff2198e8cd080c5bd90709f490b7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 27/29] fix: forget cancelled order book orders so that the
 pool is not stuck when no new ones are placed

---
 contracts/pair_concentrated_duality/src/execute.rs     |  4 +---
 .../pair_concentrated_duality/src/orderbook/state.rs   | 10 ++++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/contracts/pair_concentrated_duality/src/execute.rs b/contracts/pair_concentrated_duality/src/execute.rs
index e224f86..3d5ab0c 100644
--- a/contracts/pair_concentrated_duality/src/execute.rs
+++ b/contracts/pair_concentrated_duality/src/execute.rs
@@ -698,9 +698,7 @@ pub fn process_custom_msgs(
 
             let mut ob_state = OrderbookState::load(deps.storage)?;
             let cancel_orders_msgs = if let Some(false) = update_orderbook_conf.enable {
-                let msgs = ob_state.cancel_orders(&env.contract.address);
-                ob_state.orders = vec![];
-                msgs
+                ob_state.cancel_orders(&env.contract.address)
             } else {
                 vec![]
             };
diff --git a/contracts/pair_concentrated_duality/src/orderbook/state.rs b/contracts/pair_concentrated_duality/src/orderbook/state.rs
index cc7e539..656b9c6 100644
--- a/contracts/pair_concentrated_duality/src/orderbook/state.rs
+++ b/contracts/pair_concentrated_duality/src/orderbook/state.rs
@@ -412,13 +412,15 @@ impl OrderbookState {
     }
 
     /// Cancel orders and automatically withdraw all balances from the orderbook.
-    pub fn cancel_orders(&self, addr: &Addr) -> Vec<CosmosMsg> {
-        self.orders
-            .iter()
+    /// The cancelled orders are forgotten as they can't be queried anymore. New ones (if any) are
+    /// fetched in the callback.
+    pub fn cancel_orders(&mut self, addr: &Addr) -> Vec<CosmosMsg> {
+        std::mem::take(&mut self.orders)
+            .into_iter()
             .map(|tranche_key| {
                 MsgCancelLimitOrder {
                     creator: addr.to_string(),
-                    tranche_key: tranche_key.clone(),
+                    tranche_key,
                 }
                 .into()
             })
-- 
2.43.0


From c1273f9ba71c6ea05ebc074c856c54e058f0db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 28/29] fix: combine order book trades on both sides into their
 average price

---
 .../src/orderbook/execute.rs                  | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/contracts/pair_concentrated_duality/src/orderbook/execute.rs b/contracts/pair_concentrated_duality/src/orderbook/execute.rs
index e312482..a864b9a 100644
--- a/contracts/pair_concentrated_duality/src/orderbook/execute.rs
+++ b/contracts/pair_concentrated_duality/src/orderbook/execute.rs
@@ -1,5 +1,3 @@
-use std::cmp::Ordering;
-
 use cosmwasm_schema::cw_serde;
 use cosmwasm_std::{
     ensure_eq, to_json_string, Decimal256, Deps, DepsMut, Env, Event, MessageInfo, Response,
@@ -139,21 +137,18 @@ pub fn process_cumulative_trades(
         events.push(Event::new(format!("cumulative_trade_{i}")).add_attributes(attrs))
     }
 
-    // Considering only base_asset in the end calculations
-    // as this is the only assets that left contract
+    // Both sides were crossed: trade1 exchanges the same assets as trade2 but in the opposite direction.
+    // Combining received and sold amounts of each asset gives the average price of both trades.
     let trade = match &trades {
-        [trade1, trade2] => match trade1.base_asset.amount.cmp(&trade2.quote_asset.amount) {
-            // We received less trade1.base_asset than sold i.e. we sold trade1.base_asset
-            Ordering::Less => CumulativeTrade {
-                base_asset: trade2.base_asset.clone(),
-                quote_asset: trade1.base_asset.clone(),
-            },
-            // We received more trade1.base_asset than sold i.e. we bought trade1.quote_asset
-            Ordering::Greater => CumulativeTrade {
-                base_asset: trade1.base_asset.clone(),
-                quote_asset: trade2.base_asset.clone(),
-            },
-            Ordering::Equal => unreachable!(),
+        [trade1, trade2] => CumulativeTrade {
+            base_asset: trade1
+                .base_asset
+                .info
+                .with_dec_balance(trade1.base_asset.amount + trade2.quote_asset.amount),
+            quote_asset: trade2
+                .base_asset
+                .info
+                .with_dec_balance(trade2.base_asset.amount + trade1.quote_asset.amount),
         },
         [trade] => trade.clone(),
         _ => unreachable!("Must be at least 1 and at most 2 cumulative trades"),
-- 
2.43.0


From a992e56b9d4b77ca412379ca56263330fbc26af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 29/29] fix: stable pool: simulate with the recorded precisions
 instead of the registry's current ones

---
 contracts/pair_stable/src/contract.rs | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 8ae31a9..bf06801 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -815,11 +815,7 @@ pub fn query_simulation(
     ask_asset_info: Option<AssetInfo>,
 ) -> StdResult<SimulationResponse> {
     let config = CONFIG.load(deps.storage)?;
-    let pools = config.pair_info.query_pools_decimal(
-        &deps.querier,
-        &config.pair_info.contract_addr,
-        &config.factory_addr,
-    )?;
+    let pools = query_decimal_pools(deps, &config)?;
 
     let (offer_pool, ask_pool) =
         select_pools(Some(&offer_asset.info), ask_asset_info.as_ref(), &pools)
@@ -891,11 +887,7 @@ pub fn query_reverse_simulation(
     offer_asset_info: Option<AssetInfo>,
 ) -> StdResult<ReverseSimulationResponse> {
     let config = CONFIG.load(deps.storage)?;
-    let pools = config.pair_info.query_pools_decimal(
-        &deps.querier,
-        &config.pair_info.contract_addr,
-        &config.factory_addr,
-    )?;
+    let pools = query_decimal_pools(deps, &config)?;
     let (offer_pool, ask_pool) =
         select_pools(offer_asset_info.as_ref(), Some(&ask_asset.info), &pools)
             .map_err(|err| StdError::generic_err(format!("{err}")))?;
@@ -1064,6 +1056,19 @@ pub fn pool_info(querier: QuerierWrapper, config: &Config) -> StdResult<(Vec<Ass
     Ok((pools, total_share))
 }
 
+/// Returns the pool balances with the precisions recorded when the pool was created, which are the ones used in swaps.
+fn query_decimal_pools(deps: Deps, config: &Config) -> StdResult<Vec<DecimalAsset>> {
+    config
+        .pair_info
+        .query_pools(&deps.querier, &config.pair_info.contract_addr)?
+        .into_iter()
+        .map(|pool| {
+            let precision = get_precision(deps.storage, &pool.info)?;
+            pool.to_decimal_asset(precision)
+        })
+        .collect()
+}
+
 /// Updates the pool configuration with the specified parameters in the `params` variable.
 ///
 /// * **params** new parameter values.
@@ -1201,9 +1206,7 @@ fn query_compute_d(deps: Deps, env: Env) -> StdResult<Uint128> {
     let config = CONFIG.load(deps.storage)?;
 
     let amp = compute_current_amp(&config, &env)?;
-    let pools = config
-        .pair_info
-        .query_pools_decimal(&deps.querier, env.contract.address, &config.factory_addr)?
+    let pools = query_decimal_pools(deps, &config)?
         .into_iter()
         .map(|pool| pool.amount)
         .collect::<Vec<_>>();
-- 
2.43.0

