From 5f01a6ff742547763fc4f46d767143bba127bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:57 +0000
Subject: [PATCH 01/10] fix: cross the tick when an upward swap stops exactly
 at a limit equal to its price

A y to x swap whose price limit equals the price of an initialized tick and whose
amount ends exactly there moved the current tick onto that tick without crossing it,
so the pool kept the liquidity of the range below: liquidity of the range above was
missing and liquidity ending there stayed active without backing.
---
 contracts/oraiswap-v3/src/state.rs | 4 +++-
 wasm/collections/tickmap.rs        | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..acc17bf 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -382,7 +382,9 @@ pub fn get_closer_limit(
     };
 
     let sqrt_price = calculate_sqrt_price(index)?;
-    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
+    // going up, a swap that stops exactly at the tick ends inside the range above it, so the tick
+    // has to be crossed even when its sqrt_price is the limit itself
+    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price <= sqrt_price_limit) {
         Ok((sqrt_price, Some((index, is_initialized))))
     } else {
         Ok((sqrt_price_limit, None))
diff --git a/wasm/collections/tickmap.rs b/wasm/collections/tickmap.rs
index 80cd654..5e690c5 100644
--- a/wasm/collections/tickmap.rs
+++ b/wasm/collections/tickmap.rs
@@ -230,7 +230,7 @@ impl Tickmap {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
@@ -246,7 +246,7 @@ impl Tickmap {
                 }
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, false))))
                 } else {
-- 
2.43.0


From f29d1d4c0cd3d0503d52288fb8c8b6c94bebb7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:57 +0000
Subject: [PATCH 02/10] fix: do not abort swaps that cross from thin into thick
 liquidity

Whether the rest of a swap is enough to leave a tick was computed with the liquidity
before the tick; when the rest is more than that liquidity could ever absorb the
computation fails and the whole swap was refused, although the liquidity behind the
tick could serve it. Such a rest is enough to cross.
---
 contracts/oraiswap-v3/src/storage/pool.rs | 5 ++++-
 wasm/storage/pool.rs                      | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 0640cf1..31c8780 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -145,6 +145,8 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
+        // an error means that the remaining amount is beyond what this liquidity could ever absorb,
+        // which is more than enough to leave the tick
         let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
@@ -152,7 +154,8 @@ impl Pool {
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        )?;
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
diff --git a/wasm/storage/pool.rs b/wasm/storage/pool.rs
index 65c21f7..334f7aa 100644
--- a/wasm/storage/pool.rs
+++ b/wasm/storage/pool.rs
@@ -94,14 +94,17 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // an error means that the remaining amount is beyond what this liquidity could ever absorb,
+        // which is more than enough to leave the tick
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 83afd129d1dc419201d20245825c540ab79696c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:23 +0000
Subject: [PATCH 03/10] fix: take payments of attached native coins once and
 return the whole change

---
 .../oraiswap-v3/src/entrypoints/common.rs     |  8 +--
 .../oraiswap-v3/src/entrypoints/execute.rs    | 21 +++++---
 contracts/oraiswap-v3/src/interface.rs        | 52 ++++++++++---------
 3 files changed, 44 insertions(+), 37 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..712d9e6 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -187,7 +187,7 @@ pub fn calculate_swap(
 pub fn swap_internal(
     store: &mut dyn Storage,
     api: &dyn Api,
-    info: &MessageInfo,
+    info: &mut MessageInfo,
     msgs: &mut Vec<CosmosMsg>,
     contract_address: &Addr,
     current_timestamp: u64,
@@ -229,8 +229,8 @@ pub fn swap_internal(
         amount: calculate_swap_result.amount_out.into(),
     };
 
-    asset_0.transfer_from(msgs, &info, contract_address.to_string())?;
-    asset_1.transfer(msgs, &info)?;
+    asset_0.transfer_from(msgs, info, contract_address.to_string())?;
+    asset_1.transfer(msgs, info)?;
 
     Ok(calculate_swap_result)
 }
@@ -239,7 +239,7 @@ pub fn swap_route_internal(
     store: &mut dyn Storage,
     api: &dyn Api,
     env: Env,
-    info: &MessageInfo,
+    info: &mut MessageInfo,
     msgs: &mut Vec<CosmosMsg>,
     amount_in: TokenAmount,
     swaps: Vec<SwapHop>,
diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..148f70c 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -1,5 +1,7 @@
 use crate::error::ContractError;
-use crate::interface::{Asset, AssetInfo, CalculateSwapResult, Cw721ReceiveMsg, SwapHop};
+use crate::interface::{
+    refund_funds, Asset, AssetInfo, CalculateSwapResult, Cw721ReceiveMsg, SwapHop,
+};
 use crate::liquidity::Liquidity;
 use crate::percentage::Percentage;
 use crate::sqrt_price::SqrtPrice;
@@ -159,7 +161,7 @@ pub fn change_fee_receiver(
 pub fn create_position(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     pool_key: PoolKey,
     lower_tick: i32,
     upper_tick: i32,
@@ -224,8 +226,9 @@ pub fn create_position(
     };
 
     let mut msgs = vec![];
-    asset_0.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
-    asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
+    asset_0.transfer_from(&mut msgs, &mut info, env.contract.address.to_string())?;
+    asset_1.transfer_from(&mut msgs, &mut info, env.contract.address.to_string())?;
+    refund_funds(&mut msgs, &info);
 
     let event_attributes = vec![
         attr("action", "create_position"),
@@ -265,7 +268,7 @@ pub fn create_position(
 pub fn swap(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     pool_key: PoolKey,
     x_to_y: bool,
     amount: TokenAmount,
@@ -281,7 +284,7 @@ pub fn swap(
     } = swap_internal(
         deps.storage,
         deps.api,
-        &info,
+        &mut info,
         &mut msgs,
         &env.contract.address,
         env.block.time.millis(),
@@ -291,6 +294,7 @@ pub fn swap(
         by_amount_in,
         sqrt_price_limit,
     )?;
+    refund_funds(&mut msgs, &info);
 
     Ok(Response::new()
         .add_messages(msgs)
@@ -322,7 +326,7 @@ pub fn swap(
 pub fn swap_route(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     amount_in: TokenAmount,
     expected_amount_out: TokenAmount,
     slippage: Percentage,
@@ -333,7 +337,7 @@ pub fn swap_route(
         deps.storage,
         deps.api,
         env,
-        &info,
+        &mut info,
         &mut msgs,
         amount_in,
         swaps,
@@ -344,6 +348,7 @@ pub fn swap_route(
     if amount_out < min_amount_out {
         return Err(ContractError::AmountUnderMinimumAmountOut);
     }
+    refund_funds(&mut msgs, &info);
 
     Ok(Response::new()
         .add_messages(msgs)
diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..4ba1f56 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -89,10 +89,12 @@ impl Asset {
         Ok(())
     }
 
+    /// Collects the asset from the sender. A native payment is deducted from `info.funds`, so that
+    /// several payments of one message share the attached coins; see [refund_funds] for the rest.
     pub fn transfer_from(
         &self,
         msgs: &mut Vec<CosmosMsg>,
-        info: &MessageInfo,
+        info: &mut MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
         if !self.amount.is_zero() {
@@ -112,30 +114,10 @@ impl Asset {
                     );
                 }
                 AssetInfo::NativeToken { denom } => {
-                    match info.funds.iter().find(|x| x.denom.eq(denom)) {
-                        Some(coin) => {
-                            if coin.amount >= self.amount {
-                                let refund_amount = coin.amount - self.amount;
-                                // refund for user
-                                if !refund_amount.is_zero() {
-                                    msgs.push(
-                                        BankMsg::Send {
-                                            to_address: info.sender.to_string(),
-                                            amount: vec![Coin {
-                                                amount: refund_amount,
-                                                denom: denom.to_string(),
-                                            }],
-                                        }
-                                        .into(),
-                                    )
-                                }
-                            } else {
-                                return Err(ContractError::InvalidFunds {
-                                    transfer_amount: self.amount,
-                                });
-                            }
-                        }
-                        None => {
+                    // take the payment out of the coins that are still available
+                    match info.funds.iter_mut().find(|x| x.denom.eq(denom)) {
+                        Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,
+                        _ => {
                             return Err(ContractError::InvalidFunds {
                                 transfer_amount: self.amount,
                             });
@@ -149,6 +131,26 @@ impl Asset {
     }
 }
 
+/// Returns the attached coins that no payment has used to the sender.
+pub fn refund_funds(msgs: &mut Vec<CosmosMsg>, info: &MessageInfo) {
+    let amount: Vec<Coin> = info
+        .funds
+        .iter()
+        .filter(|coin| !coin.amount.is_zero())
+        .cloned()
+        .collect();
+
+    if !amount.is_empty() {
+        msgs.push(
+            BankMsg::Send {
+                to_address: info.sender.to_string(),
+                amount,
+            }
+            .into(),
+        );
+    }
+}
+
 #[cw_serde]
 pub struct Approval {
     /// Account that can transfer/send the token
-- 
2.43.0


From 49a5779ddb83afe8bc9e21e3fd3f5289aceacfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:02 +0000
Subject: [PATCH 04/10] fix: a burn by an approved account or operator closes
 the owner's position

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 148f70c..af9f10b 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -773,8 +773,14 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // an approved account or operator closes the owner's position on the owner's behalf
+    let owner_info = MessageInfo {
+        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
+        ..info
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, owner_info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 85fbf416150395f1bbad51bbf4d53b290e099175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:53 +0000
Subject: [PATCH 05/10] fix: refuse to list a fee tier twice

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index af9f10b..3f8d8f3 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -630,6 +630,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..334ee1f 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -188,6 +188,9 @@ pub enum ContractError {
     #[error("pool not created")]
     CreatePoolError,
 
+    #[error("FeeTierAlreadyExist")]
+    FeeTierAlreadyExist,
+
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
-- 
2.43.0


From d13e3810b39114b4c22632ee300a87dc6cd21d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:20 +0000
Subject: [PATCH 06/10] fix: count liquidity ticks over whole tick map chunks
 and refuse reversed ranges

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..24d7706 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -300,7 +300,7 @@ pub fn get_liquidity_ticks_amount(
     let max_tick = get_max_tick(tick_spacing);
     let min_tick = get_min_tick(tick_spacing);
 
-    if lower_tick < min_tick || upper_tick > max_tick {
+    if lower_tick < min_tick || upper_tick > max_tick || lower_tick > upper_tick {
         return Err(ContractError::InvalidTickIndex);
     };
 
@@ -308,7 +308,9 @@ pub fn get_liquidity_ticks_amount(
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
     let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+        // a range may span the whole chunk, so the mask is shifted down from all bits
+        let range: u64 =
+            (chunk >> min_bit) & (u64::MAX >> (CHUNK_SIZE as u8 - 1 - (max_bit - min_bit)));
         range.count_ones()
     };
 
-- 
2.43.0


From e1ef9161d2eb1cfbf48ce8f0f5bf346018471def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:43 +0000
Subject: [PATCH 07/10] fix: accept any page size and offset in the position
 listings

---
 contracts/oraiswap-v3/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index acc17bf..64bb134 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,8 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +229,8 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0


From 24d7b77340986c88fb89c7acb54f7a6261ab0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:54 +0000
Subject: [PATCH 08/10] fix: get_liquidity reports the amounts of the liquidity
 it chose and accepts prices on a range bound

---
 contracts/oraiswap-v3/src/logic/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/oraiswap-v3/src/logic/math.rs b/contracts/oraiswap-v3/src/logic/math.rs
index af110ef..f01de68 100644
--- a/contracts/oraiswap-v3/src/logic/math.rs
+++ b/contracts/oraiswap-v3/src/logic/math.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = calculate_sqrt_price(lower_tick)?;
     let upper_sqrt_price = calculate_sqrt_price(upper_tick)?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = get_liquidity_by_x_sqrt_price(
             x,
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From 4a7d2741ddc012c9a17ebd4ba1520c70ffe50100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:45 +0000
Subject: [PATCH 09/10] fix: a swap by input amount never moves the price past
 the end of its segment

The input needed to reach the end of a segment is rounded up, and near the lower
end of the price range by more than one unit. An amount between the exact and
the rounded input moved the price past the limit of the caller, or past an
initialized tick without crossing it, and an input rounded above the given
amount made the swap abort.
---
 contracts/oraiswap-v3/src/math/clamm.rs | 12 +++++++++++-
 wasm/clamm.rs                           | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..0b0a57a 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -31,7 +31,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -52,6 +52,10 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             )?;
+            // the amount needed to hit the target is rounded up, price must not pass it
+            if x_to_y && next_sqrt_price < target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+            }
         };
     } else {
         amount_out = (if x_to_y {
@@ -91,6 +95,12 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
+    // Amount in can not exceed amount without the fee
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
         amount - amount_in
     } else {
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..048a5e5 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -43,7 +43,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -64,6 +64,10 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // the amount needed to hit the target is rounded up, price must not pass it
+            if x_to_y && next_sqrt_price < target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -127,6 +131,12 @@ pub fn compute_swap_step(
         amount_out = amount;
     }
 
+    // Amount in can not exceed amount without the fee
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     let fee_amount = if by_amount_in && next_sqrt_price != target_sqrt_price {
         amount - amount_in
     } else {
-- 
2.43.0


From 621394f343b25bf58db90ebdf2c8b00772ae7f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 10/10] fix: round the numerator of get_delta_x up as well when
 rounding up

The input of a swap or a deposit could be taken as the integer just below the
exact amount.
---
 contracts/oraiswap-v3/src/math/clamm.rs | 6 +++++-
 wasm/clamm.rs                           | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 0b0a57a..302cc36 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -126,7 +126,11 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
+    let nominator = if rounding_up {
+        delta_price.big_mul_to_value_up(liquidity)
+    } else {
+        delta_price.big_mul_to_value(liquidity)
+    };
 
     match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 048a5e5..d84803e 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -164,7 +164,11 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
+    let nominator = if rounding_up {
+        delta_price.big_mul_to_value_up(liquidity)
+    } else {
+        delta_price.big_mul_to_value(liquidity)
+    };
 
     ok_or_mark_trace!(match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
-- 
2.43.0

