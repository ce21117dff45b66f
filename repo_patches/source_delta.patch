From f9b9ad602af2e66686f1682095dd7341d57fddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:23 +0000
Subject: [PATCH 01/13] fix: burn acts on the position named by the token id,
 not on the sender's position of the same index

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..1b3eb08 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -768,8 +768,18 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // the burned position belongs to the owner encoded in the token id, who is also the one
+    // to receive the tokens, even when an approved spender or operator burns it
+    let owner = deps
+        .api
+        .addr_validate(&String::from_utf8_lossy(owner_raw))?;
+    let owner_info = MessageInfo {
+        sender: owner,
+        ..info
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, owner_info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 9a24dcd0fee427312c722376f4eb79d37cdb1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:23 +0000
Subject: [PATCH 02/13] fix: attached native coins pay for one hop of a swap
 route only

---
 contracts/oraiswap-v3/src/entrypoints/common.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..bcfea5f 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -248,6 +248,9 @@ pub fn swap_route_internal(
 
     let current_timestamp = env.block.time.millis();
 
+    // coins attached to the message that no hop has used yet
+    let mut info = info.clone();
+
     for swap_hop in &swaps {
         let sqrt_price_limit = if swap_hop.x_to_y {
             SqrtPrice::new(MIN_SQRT_PRICE)
@@ -258,7 +261,7 @@ pub fn swap_route_internal(
         next_swap_amount = swap_internal(
             store,
             api,
-            info,
+            &info,
             msgs,
             &env.contract.address,
             current_timestamp,
@@ -269,6 +272,14 @@ pub fn swap_route_internal(
             sqrt_price_limit,
         )?
         .amount_out;
+
+        // the coin of this hop is spent and its excess refunded, later hops must not count it again
+        let token_in = if swap_hop.x_to_y {
+            &swap_hop.pool_key.token_x
+        } else {
+            &swap_hop.pool_key.token_y
+        };
+        info.funds.retain(|coin| coin.denom.ne(token_in));
     }
 
     Ok(next_swap_amount)
-- 
2.43.0


From f21c3bb6a9c6c99a7bd1ee8517eee9543714745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:23 +0000
Subject: [PATCH 03/13] fix: refund attached native coins when the amount due
 is zero

---
 contracts/oraiswap-v3/src/interface.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..88e3488 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -95,7 +95,9 @@ impl Asset {
         info: &MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
-        if !self.amount.is_zero() {
+        // attached native coins have to be refunded even when nothing is due
+        let is_native = matches!(self.info, AssetInfo::NativeToken { .. });
+        if !self.amount.is_zero() || is_native {
             match &self.info {
                 AssetInfo::Token { contract_addr } => {
                     msgs.push(
@@ -136,9 +138,11 @@ impl Asset {
                             }
                         }
                         None => {
-                            return Err(ContractError::InvalidFunds {
-                                transfer_amount: self.amount,
-                            });
+                            if !self.amount.is_zero() {
+                                return Err(ContractError::InvalidFunds {
+                                    transfer_amount: self.amount,
+                                });
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 62b126c736233744a6af9dd99ffc8f489892c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:52 +0000
Subject: [PATCH 04/13] fix: add_fee_tier rejects a fee tier that already
 exists

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 1b3eb08..7d8fbb1 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -625,6 +625,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..792a9ea 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -191,6 +191,9 @@ pub enum ContractError {
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
+    #[error("fee tier already exist")]
+    FeeTierAlreadyExist,
+
     #[error("NotEmptyTickDeinitialization")]
     NotEmptyTickDeinitialization,
 }
-- 
2.43.0


From 00ed0df765573aeb7048e2cf23ae2dc17c919d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:52 +0000
Subject: [PATCH 05/13] fix: send_nft tells the receiving contract the token id
 it now owns

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 7d8fbb1..81fd850 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -787,7 +787,7 @@ pub fn handle_burn(
 }
 
 pub fn handle_send_nft(
-    deps: DepsMut,
+    mut deps: DepsMut,
     env: Env,
     info: MessageInfo,
     contract: Addr,
@@ -795,11 +795,13 @@ pub fn handle_send_nft(
     msg: Option<Binary>,
 ) -> Result<Response, ContractError> {
     // Transfer token
-    transfer_nft(deps, &env, &info, &contract, &token_id)?;
+    transfer_nft(deps.branch(), &env, &info, &contract, &token_id)?;
 
+    // a token id names its owner, so the transferred position is the last one of the recipient now
+    let index = state::get_position_length(deps.storage, &contract) - 1;
     let send = Cw721ReceiveMsg {
         sender: info.sender.clone(),
-        token_id,
+        token_id: state::position_key(&contract, index).into(),
         msg,
     };
 
-- 
2.43.0


From 317d12faf62e7434f4856a80db90f8b550713508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:52 +0000
Subject: [PATCH 06/13] fix: liquidity_ticks_amount counts a range that spans a
 whole bitmap chunk

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..4c2f841 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -308,7 +308,7 @@ pub fn get_liquidity_ticks_amount(
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
     let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+        let range: u64 = (chunk >> min_bit) & (u64::MAX >> (63 - (max_bit - min_bit)));
         range.count_ones()
     };
 
-- 
2.43.0


From 53e87ec33a9bb70f68f4e7d1a7c887b10b8bfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:57 +0000
Subject: [PATCH 07/13] fix: a swap that ends exactly at a tick's price crosses
 that tick when moving up

get_closer_limit dropped a tick whose price equals the caller's price limit. A
y-to-x swap that ended exactly there moved the current tick to the tick without
applying its liquidity change, so the pool went on with liquidity of positions
that are out of range and could pay out more than it holds.
---
 contracts/oraiswap-v3/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..9ee830e 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -382,7 +382,8 @@ pub fn get_closer_limit(
     };
 
     let sqrt_price = calculate_sqrt_price(index)?;
-    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
+    // moving up, a tick whose price is exactly the limit is reached (and has to be crossed) as well
+    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price <= sqrt_price_limit) {
         Ok((sqrt_price, Some((index, is_initialized))))
     } else {
         Ok((sqrt_price_limit, None))
-- 
2.43.0


From 3fca3277282f2b73e015ea9939865eaf4c3a5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:24 +0000
Subject: [PATCH 08/13] fix: a step that does not move the price keeps the pool
 below a tick it has crossed downwards

After crossing a tick downwards the pool's price equals the tick's price. If the
liquidity below is so large that the rest of the input cannot move the price,
the current tick was recomputed from the price and went back above the crossed
tick, while the active liquidity stayed that of the range below.
---
 contracts/oraiswap-v3/src/storage/pool.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 0640cf1..9e5b646 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -139,8 +139,15 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index =
+            let tick_index =
                 get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
+            // right after a tick was crossed downwards the pool is below that tick while the price
+            // still equals the tick's price: a step too small to move the price must not go back
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
 
             return Ok((total_amount, remaining_amount, has_crossed));
         };
-- 
2.43.0


From 945327e65cc7b1d056a83b931304f300e1248499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 09/13] fix: a swap step stops at its target price

The amount needed to reach the target is rounded up (at low prices by more than
one unit), so a smaller amount could be swapped in one step past the target:
past an initialised tick without crossing it, or past the caller's price limit.
---
 contracts/oraiswap-v3/src/math/clamm.rs | 22 +++++++++++++++++++++-
 wasm/clamm.rs                           | 22 +++++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..699a890 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -31,7 +31,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -52,6 +52,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             )?;
+            // the amount needed is rounded up: a smaller one can be enough to reach the target
+            if is_target_reached(next_sqrt_price, target_sqrt_price, x_to_y) {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = (if x_to_y {
@@ -65,6 +70,9 @@ pub fn compute_swap_step(
         } else {
             next_sqrt_price =
                 get_next_sqrt_price_from_output(current_sqrt_price, liquidity, amount, x_to_y)?;
+            if is_target_reached(next_sqrt_price, target_sqrt_price, x_to_y) {
+                next_sqrt_price = target_sqrt_price;
+            }
         }
     }
 
@@ -105,6 +113,18 @@ pub fn compute_swap_step(
     })
 }
 
+fn is_target_reached(
+    next_sqrt_price: SqrtPrice,
+    target_sqrt_price: SqrtPrice,
+    x_to_y: bool,
+) -> bool {
+    if x_to_y {
+        next_sqrt_price <= target_sqrt_price
+    } else {
+        next_sqrt_price >= target_sqrt_price
+    }
+}
+
 pub fn get_delta_x(
     sqrt_price_a: SqrtPrice,
     sqrt_price_b: SqrtPrice,
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..81d385e 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -43,7 +43,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -64,6 +64,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // the amount needed is rounded up: a smaller one can be enough to reach the target
+            if is_target_reached(next_sqrt_price, target_sqrt_price, x_to_y) {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -81,6 +86,9 @@ pub fn compute_swap_step(
                 amount,
                 x_to_y
             ))?;
+            if is_target_reached(next_sqrt_price, target_sqrt_price, x_to_y) {
+                next_sqrt_price = target_sqrt_price;
+            }
         }
     }
 
@@ -141,6 +149,18 @@ pub fn compute_swap_step(
     })
 }
 
+fn is_target_reached(
+    next_sqrt_price: SqrtPrice,
+    target_sqrt_price: SqrtPrice,
+    x_to_y: bool,
+) -> bool {
+    if x_to_y {
+        next_sqrt_price <= target_sqrt_price
+    } else {
+        next_sqrt_price >= target_sqrt_price
+    }
+}
+
 #[wasm_bindgen(js_name = getDeltaX)]
 #[allow(non_snake_case)]
 pub fn get_delta_x(
-- 
2.43.0


From 3a2f5efa1f4d280edebf3c170fe5157cdf5dcef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:16 +0000
Subject: [PATCH 10/13] fix: paging an owner's positions does not overflow for
 large limits

---
 contracts/oraiswap-v3/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index 9ee830e..75b2fa3 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,8 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +229,8 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0


From 1eb5f9a038dee4731b6bb7e98b533198bc6f97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:49 +0000
Subject: [PATCH 11/13] fix: get_liquidity reports the amounts that belong to
 the liquidity it returns, also at the ends of the range

---
 contracts/oraiswap-v3/src/logic/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/oraiswap-v3/src/logic/math.rs b/contracts/oraiswap-v3/src/logic/math.rs
index af110ef..f01de68 100644
--- a/contracts/oraiswap-v3/src/logic/math.rs
+++ b/contracts/oraiswap-v3/src/logic/math.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = calculate_sqrt_price(lower_tick)?;
     let upper_sqrt_price = calculate_sqrt_price(upper_tick)?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = get_liquidity_by_x_sqrt_price(
             x,
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From d115bb089a4cdb852bddc217d52fe1f9ed889d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:17 +0000
Subject: [PATCH 12/13] fix: the liquidity helpers round the other amount
 exactly and fail cleanly at the ends of the range

---
 contracts/oraiswap-v3/src/logic/math.rs | 62 +++++++++++--------------
 wasm/math.rs                            | 62 +++++++++++--------------
 2 files changed, 54 insertions(+), 70 deletions(-)

diff --git a/contracts/oraiswap-v3/src/logic/math.rs b/contracts/oraiswap-v3/src/logic/math.rs
index f01de68..a018494 100644
--- a/contracts/oraiswap-v3/src/logic/math.rs
+++ b/contracts/oraiswap-v3/src/logic/math.rs
@@ -123,7 +123,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> Result<SingleTokenLiquidity, ContractError> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(ContractError::UpperSqrtPriceLess);
     }
 
@@ -198,7 +198,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> Result<SingleTokenLiquidity, ContractError> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(ContractError::CurrentSqrtPriceLess);
     }
 
@@ -246,22 +246,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> Result<TokenAmount, ContractError> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            ((U256::from(common) + U256::from(Liquidity::from_integer(1).get()) - U256::from(1))
-                / U256::from(Liquidity::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
-    } else {
-        TokenAmount::new(
-            (U256::from(common) / U256::from(Liquidity::from_integer(1).get()))
-                .try_into()
-                .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
-    })
+    let nominator = U256::from(liquidity.get()) * U256::from(nominator.get());
+    let denominator = U256::from(denominator.get()) * U256::from(Liquidity::from_integer(1).get());
+
+    Ok(TokenAmount::new(
+        if rounding_up {
+            (nominator + denominator - U256::from(1)) / denominator
+        } else {
+            nominator / denominator
+        }
+        .try_into()
+        .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
+    ))
 }
 
 pub fn calculate_y(
@@ -269,23 +265,19 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> Result<TokenAmount, ContractError> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (((U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity))
-                + U256::from(SqrtPrice::from_integer(1).get() - 1))
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
-    } else {
-        TokenAmount::new(
-            (U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity)
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
-        )
-    })
+    let nominator = U256::from(sqrt_price_diff.get()) * U256::from(liquidity.get());
+    let denominator = U256::from(SqrtPrice::from_integer(1).get())
+        * U256::from(Liquidity::from_integer(1).get());
+
+    Ok(TokenAmount::new(
+        if rounding_up {
+            (nominator + denominator - U256::from(1)) / denominator
+        } else {
+            nominator / denominator
+        }
+        .try_into()
+        .map_err(|_| ContractError::OverflowCastingTokenAmount)?,
+    ))
 }
 
 #[cfg(test)]
diff --git a/wasm/math.rs b/wasm/math.rs
index d7e1fdc..e5e33ca 100644
--- a/wasm/math.rs
+++ b/wasm/math.rs
@@ -50,7 +50,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -126,7 +126,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
@@ -174,22 +174,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            ((U256::from(common) + U256::from(Liquidity::from_integer(1).get()) - U256::from(1))
-                / U256::from(Liquidity::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| err!("Overflow while casting to TokenAmount"))?,
-        )
-    } else {
-        TokenAmount::new(
-            (U256::from(common) / U256::from(Liquidity::from_integer(1).get()))
-                .try_into()
-                .map_err(|_| err!("Overflow while casting to TokenAmount"))?,
-        )
-    })
+    let nominator = U256::from(liquidity.get()) * U256::from(nominator.get());
+    let denominator = U256::from(denominator.get()) * U256::from(Liquidity::from_integer(1).get());
+
+    Ok(TokenAmount::new(
+        if rounding_up {
+            (nominator + denominator - U256::from(1)) / denominator
+        } else {
+            nominator / denominator
+        }
+        .try_into()
+        .map_err(|_| err!("Overflow while casting to TokenAmount"))?,
+    ))
 }
 
 pub fn calculate_y(
@@ -197,21 +193,17 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (((U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity))
-                + U256::from(SqrtPrice::from_integer(1).get() - 1))
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| err!("Overflow in calculating TokenAmount"))?,
-        )
-    } else {
-        TokenAmount::new(
-            (U256::from(sqrt_price_diff.get()) * U256::from(shifted_liquidity)
-                / U256::from(SqrtPrice::from_integer(1).get()))
-            .try_into()
-            .map_err(|_| err!("Overflow in calculating TokenAmount"))?,
-        )
-    })
+    let nominator = U256::from(sqrt_price_diff.get()) * U256::from(liquidity.get());
+    let denominator = U256::from(SqrtPrice::from_integer(1).get())
+        * U256::from(Liquidity::from_integer(1).get());
+
+    Ok(TokenAmount::new(
+        if rounding_up {
+            (nominator + denominator - U256::from(1)) / denominator
+        } else {
+            nominator / denominator
+        }
+        .try_into()
+        .map_err(|_| err!("Overflow in calculating TokenAmount"))?,
+    ))
 }
-- 
2.43.0


From 3110ffedd590dff43c8332dbf1eb0f4a7f52e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 13/13] hook: native callers can hand ticks to simulate_swap
 (cfg verif_hooks)

---
 wasm/lib.rs         |  2 ++
 wasm/swap.rs        |  3 +++
 wasm/verif_hooks.rs | 12 ++++++++++++
 3 files changed, 17 insertions(+)
 create mode 100644 wasm/verif_hooks.rs

diff --git a/wasm/lib.rs b/wasm/lib.rs
index 1cb27b2..8ff21ef 100644
--- a/wasm/lib.rs
+++ b/wasm/lib.rs
@@ -11,6 +11,8 @@ pub mod storage;
 pub mod types;
 pub mod swap;
 pub mod collections;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 pub use consts::*;
 pub use custom::*;
diff --git a/wasm/swap.rs b/wasm/swap.rs
index 222ee50..d0c9c38 100644
--- a/wasm/swap.rs
+++ b/wasm/swap.rs
@@ -7,6 +7,9 @@ use crate::{
 };
 use crate::{LiquidityTick, Pool};
 use decimal::Decimal;
+#[cfg(verif_hooks)]
+use crate::verif_hooks::from_value;
+#[cfg(not(verif_hooks))]
 use serde_wasm_bindgen::from_value;
 use traceable_result::TrackableResult;
 use traceable_result::*;
diff --git a/wasm/verif_hooks.rs b/wasm/verif_hooks.rs
new file mode 100644
index 0000000..a8dd693
--- /dev/null
+++ b/wasm/verif_hooks.rs
@@ -0,0 +1,12 @@
+//! Lets native code call `simulate_swap`, whose ticks are a JavaScript value.
+use crate::LiquidityTick;
+use std::cell::RefCell;
+use wasm_bindgen::JsValue;
+
+thread_local! {
+    pub static TICKS: RefCell<Vec<LiquidityTick>> = RefCell::new(vec![]);
+}
+
+pub fn from_value(_: JsValue) -> Result<Vec<LiquidityTick>, ()> {
+    Ok(TICKS.with(|t| t.borrow().clone()))
+}
-- 
2.43.0

