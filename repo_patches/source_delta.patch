From ce897fecb0404628910fad936993c07b8f9325ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH] fix: never charge a partial fill more than its stated input

Recomputing the input from the consumed part goes through the rate limiter's
inverse, whose rate is rounded up, so the result can exceed amount_in.
---
 programs/dynamic-bonding-curve/src/state/virtual_pool.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
index 14acb0c..02be1cb 100644
--- a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
+++ b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
@@ -668,9 +668,13 @@ impl VirtualPool {
                         )?
                 };
 
-                let (included_fee_input_amount, fee_amount) =
+                let (included_fee_input_amount, _) =
                     PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, actual_amount_in)?;
 
+                // the rate limiter rounds its inverse up, the trader never pays more than amount_in
+                let included_fee_input_amount = included_fee_input_amount.min(amount_in);
+                let fee_amount = included_fee_input_amount.safe_sub(actual_amount_in)?;
+
                 // that ensure included_fee_input_amount = actual_amount_in + trading_fee + protocol_fee + referral_fee
                 let (trading_fee, protocol_fee, referral_fee) = config
                     .pool_fees
-- 
2.43.0

