From b1fb11ad8427cde6c034124d678bb584c631de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 1/5] fix: constant price single-sided conversion returns None
 instead of panicking when the share exceeds u128

---
 .../src/curve/constant_price.rs               | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 61b9f16..9872670 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -13,6 +13,7 @@ use {
         program_pack::{IsInitialized, Pack, Sealed},
     },
     spl_math::{checked_ceil_div::CheckedCeilDiv, precise_number::PreciseNumber, uint::U256},
+    std::convert::TryFrom,
 };
 
 /// Get the amount of pool tokens for the given amount of token A or B.
@@ -38,21 +39,19 @@ pub fn trading_tokens_to_pool_tokens(
         .checked_mul(token_b_price)?
         .checked_add(U256::from(swap_token_a_amount))?;
     let pool_supply = U256::from(pool_supply);
-    match round_direction {
-        RoundDirection::Floor => Some(
-            pool_supply
-                .checked_mul(given_value)?
-                .checked_div(total_value)?
-                .as_u128(),
-        ),
-        RoundDirection::Ceiling => Some(
+    let pool_tokens = match round_direction {
+        RoundDirection::Floor => pool_supply
+            .checked_mul(given_value)?
+            .checked_div(total_value)?,
+        RoundDirection::Ceiling => {
             pool_supply
                 .checked_mul(given_value)?
                 .checked_ceil_div(total_value)?
                 .0
-                .as_u128(),
-        ),
-    }
+        }
+    };
+    // the share can exceed u128::MAX, fail instead of panicking
+    u128::try_from(pool_tokens).ok()
 }
 
 /// ConstantPriceCurve struct implementing CurveCalculator
-- 
2.43.0


From cae152a3b6ca53c86a08d5833556e9aee1f05e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 2/5] fix: sqrt_u64 rounding up to 2^64 no longer panics

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index f36c2bd..6075090 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -6,7 +6,7 @@
 //! Also fixes some quirks from PreciseNumber around to_imprecise and removes pow/root
 //! since we don't need those (could add them back in if we did more testing around precision)
 
-use spl_math::uint::U256;
+use {spl_math::uint::U256, std::convert::TryFrom};
 
 // Allows for easy swapping between different internal representations
 type InnerUint = U256;
@@ -297,7 +297,9 @@ impl DFSPreciseNumber {
 
             // we're implicitly multiplying by ONE here (since we converted self.value to u128 directly)
             // so `padded_u128 = real_value * 2^pad_bits / ONE`
-            let padded_u128 = padded_value.as_u64();
+            // rounding up can take padded_value to exactly 2^64, clamp it instead of panicking
+            // (the rounded up sqrt of u64::MAX is 2^32 too, so the result is the same)
+            let padded_u128 = u64::try_from(padded_value).unwrap_or(u64::MAX);
 
             // `sqrt_padded_u128 = real_sqrt * sqrt(2^pad_bits) / sqrt(ONE)`
             let sqrt_padded_u128 = Self::sqrt_babylonian(padded_u128, should_round_up)?;
-- 
2.43.0


From 698d9e928006b37c0272f1603b92f89f1594d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 3/5] fix: refuse single-sided deposits on curves that do not
 allow deposits

---
 programs/token-bonding-curve/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..b6d976c 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,10 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        let calculator = &token_swap.swap_curve().calculator;
+        if !calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From 85fee2e32611db0857e6b0afcc5de32400bb1c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 4/5] fix: single-sided withdrawals are charged the trade fee
 instead of being credited it

The fee on half the withdrawn amount was subtracted from the amount
converted into pool tokens, so fewer pool tokens were burnt than the
payout is worth: depositing both sides and withdrawing one side made a
profit of half the trade fee at the other depositors' expense.
---
 programs/token-bonding-curve/src/curve/base.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/curve/base.rs b/programs/token-bonding-curve/src/curve/base.rs
index 7a52fb7..aeafa50 100644
--- a/programs/token-bonding-curve/src/curve/base.rs
+++ b/programs/token-bonding-curve/src/curve/base.rs
@@ -155,7 +155,8 @@ impl SwapCurve {
         // https://github.com/balancer-labs/balancer-core/blob/f4ed5d65362a8d6cec21662fb6eae233b0babc1f/contracts/BMath.sol#L117
         let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
         let trade_fee = fees.trading_fee(half_source_amount)?;
-        let source_amount = source_amount.checked_sub(trade_fee)?;
+        // The fee is paid in pool tokens, on top of those for the amount taken out
+        let source_amount = source_amount.checked_add(trade_fee)?;
         self.calculator.withdraw_single_token_type_exact_out(
             source_amount,
             swap_token_a_amount,
-- 
2.43.0


From 175d3398b8255696d11a3d4757379aa9d6178ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:15 +0000
Subject: [PATCH 5/5] fix: owner fees are converted into pool tokens rounding
 down

A swap's owner fee was turned into pool tokens by the withdraw conversion,
which rounds up (and adds the fee on a withdrawal): a fee of a single unit
minted a whole pool token, whatever that token was worth, at the expense of
the other holders. Use the deposit conversion, as a deposit of the fee would.
---
 .../src/curve/linear_price.rs                   | 17 ++++++++---------
 programs/token-bonding-curve/src/processor.rs   |  4 +++-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index 947abab..b55a7e6 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -354,9 +354,11 @@ impl CurveCalculator for LinearPriceCurve {
     }
 
     /// Get the amount of pool tokens for the given amount of token A and B
-    /// this isn't needed since we disable deposits, otherwise
-    /// it's used in deposit_single_token_type_exact_amount_in to determine
-    /// how much pool token to mint (given a trading token amount and a minimum_pool_token_rmount)
+    /// this mostly isn't needed since we disable deposits (it's used in deposit_single_token_type_exact_amount_in
+    /// to determine how much pool token to mint, given a trading token amount and a minimum_pool_token_rmount),
+    /// UNLESS we have non-zero host fees/trade fees (which are currently disabled on the instruction level),
+    /// in which case it's used in `swap` to determine how much pool token to mint (to account for fees) into
+    /// the various fee accounts
     fn deposit_single_token_type(
         &self,
         _source_amount: u128,
@@ -365,14 +367,13 @@ impl CurveCalculator for LinearPriceCurve {
         _pool_supply: u128,
         _trade_direction: TradeDirection,
     ) -> Option<u128> {
-        // this never gets called since allows_withdrawals is false (would panic otherwise so still safe)
+        // this never gets called since allows_deposits is false (would panic otherwise so still safe; if a
+        // non-zero fee curve is created this would also fail its swaps, though that's disabled at the lib.rs level)
         None
     }
 
     /// Get the amount of pool tokens for the withdrawn amount of token A or B.
-    /// this mostly isn't needed since we disable withdrawals, UNLESS we have non-zero host fees/trade fees
-    /// (which are currently disabled on the instruction level), in which case it's used in `swap` to determine
-    /// how much pool token to mint (to account for fees) into the various fee accounts
+    /// this isn't needed since we disable withdrawals
     fn withdraw_single_token_type_exact_out(
         &self,
         _source_amount: u128,
@@ -383,8 +384,6 @@ impl CurveCalculator for LinearPriceCurve {
     ) -> Option<u128> {
         // this causes a panic if SwapCurve.withdraw_single_token_type_exact_out instruction is called
         // but that's ok for now, cheap way of disabling withdrawals without having to change how SwapCurve works
-        // (also if a non-zero fee curve is created this would also cause a panic, though that's disabled at the
-        // lib.rs level)
         None
     }
 
diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index b6d976c..3f69ff7 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -423,9 +423,11 @@ impl Processor {
             to_u64(result.source_amount_swapped)?,
         )?;
 
+        // The owner is given the pool tokens that depositing the fee would bring:
+        // rounded down, they are never worth more than the fee
         let mut pool_token_amount = token_swap
             .swap_curve()
-            .withdraw_single_token_type_exact_out(
+            .deposit_single_token_type(
                 result.owner_fee,
                 swap_token_a_amount,
                 swap_token_b_amount,
-- 
2.43.0

