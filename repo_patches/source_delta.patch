From b2d37a611518dbe3717a75acbf8d54386e3a3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 1/5] fix: token wrapper unwraps only base tokens

unwrap burned whatever bucket it was given and paid out the same amount of
a child token, so any token whose holder may burn it could be exchanged for
the backing of the base token.
---
 token_wrapper/src/token_wrapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/token_wrapper/src/token_wrapper.rs b/token_wrapper/src/token_wrapper.rs
index c42aeb7..f799ecc 100644
--- a/token_wrapper/src/token_wrapper.rs
+++ b/token_wrapper/src/token_wrapper.rs
@@ -156,6 +156,11 @@ mod token_wrapper_mod {
         }
 
         pub fn unwrap(&mut self, parent_token: Bucket, child_resource: ResourceAddress) -> Bucket {
+            assert!(
+                parent_token.resource_address() == BASE_RESOURCE,
+                "{}, VALUE:{}, REQUIRED:{}, OP:== |", ERROR_INVALID_PAYMENT_TOKEN, Runtime::bech32_encode_address(parent_token.resource_address()), Runtime::bech32_encode_address(BASE_RESOURCE)
+            );
+
             let mut child_vault = self.inputs.get_mut(&child_resource).expect(ERROR_INVALID_CHILD_TOKEN);
 
             let child_token = child_vault.vault.take_advanced(parent_token.amount(), TO_ZERO);
-- 
2.43.0


From e37dfa2b67239d75f86e0947d4f46e1b2bf6dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 2/5] fix: value a delegated fee in USD by dividing by the XRD
 per USD price

Runtime::get_usd_price is the amount of XRD for one USD. Multiplying by it
charged the account (price)^2 times the fee and made the default lock limit
too small for any transaction.
---
 fee_delegator/src/fee_delegator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fee_delegator/src/fee_delegator.rs b/fee_delegator/src/fee_delegator.rs
index 34d9cbb..d96d3bd 100644
--- a/fee_delegator/src/fee_delegator.rs
+++ b/fee_delegator/src/fee_delegator.rs
@@ -132,8 +132,7 @@ mod fee_delegator_mod {
                 self.vault.lock_fee(amount);
             }
 
-            let price = Runtime::get_usd_price() * self.price_multiplier;
-            let value = price * amount;
+            let value = amount / Runtime::get_usd_price() * self.price_multiplier;
             self.virtual_balance += value;
 
             let fee_oath = self.fee_oath.mint(value);
-- 
2.43.0


From d61fa1e421b60c60820e9fcb22d8012f37311690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 3/5] fix: auto deleverage ranks short positions by their
 profit

The cost of a short position is negative, so dividing by it inverted the
sign: losing shorts passed the threshold and winning ones were refused.
---
 exchange/src/exchange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exchange/src/exchange.rs b/exchange/src/exchange.rs
index a7fc334..8f828d4 100644
--- a/exchange/src/exchange.rs
+++ b/exchange/src/exchange.rs
@@ -2348,7 +2348,7 @@ mod exchange_mod {
             let value = position.amount * price;
             let cost = position.cost;
 
-            let pnl_percent = (value - cost) / cost;
+            let pnl_percent = (value - cost) / cost.checked_abs().expect(ERROR_ARITHMETIC);
 
             let u = skew_ratio_0 / exchange_config.adl_a - exchange_config.adl_offset / exchange_config.adl_a;
             let threshold = -(u * u * u) - exchange_config.adl_b * u;
-- 
2.43.0


From 7ab97fb64b52ca2edd80a095821b4aad4bac27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 4/5] fix: refuse price ages and update periods that do not fit
 their stored form

Both are stored as u16. Larger values passed validation and were silently
reduced modulo 65536, so a day became about six hours and 65536 became 0.
---
 config/src/config/structs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/src/config/structs.rs b/config/src/config/structs.rs
index 0283edb..983f4e4 100644
--- a/config/src/config/structs.rs
+++ b/config/src/config/structs.rs
@@ -253,11 +253,11 @@ pub struct PairConfigCompressed {
 
 impl PairConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.oi_max >= dec!(0), "Invalid oi maximum");
         assert!(self.trade_size_min >= dec!(0), "Invalid minimum trade size");
         assert!(self.update_price_delta_ratio > dec!(0), "Invalid pair update price delta ratio");
-        assert!(self.update_period_seconds > 0, "Invalid pair update period");
+        assert!(self.update_period_seconds > 0 && self.update_period_seconds <= u16::MAX as i64, "Invalid pair update period");
         assert!(self.margin_initial >= dec!(0) && self.margin_initial <= dec!(1), "Invalid initial margin");
         assert!(self.margin_maintenance >= dec!(0) && self.margin_maintenance <= dec!(1) && self.margin_maintenance <= self.margin_initial, "Invalid maintenance margin");
         assert!(self.funding_1 >= dec!(0) && self.funding_1 <= dec!(2), "Invalid funding 1");
@@ -344,7 +344,7 @@ pub struct CollateralConfigCompressed {
 
 impl CollateralConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.discount >= dec!(0.8) && self.discount <= dec!(1), "Invalid discount");
         assert!(self.margin >= dec!(0) && self.margin <= dec!(0.1), "Invalid margin");
     }
-- 
2.43.0


From 1170b23c7b5033684e1d577c57d05e17303f1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 5/5] fix: cancelling a request from before a liquidation does
 not underflow

Liquidation empties the set of active requests but leaves the statuses of
older requests. Cancelling one, or executing an order linked to one,
subtracted it from an empty count and aborted.
---
 exchange/src/exchange/virtual_margin_account.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exchange/src/exchange/virtual_margin_account.rs b/exchange/src/exchange/virtual_margin_account.rs
index 370b38c..1d41b97 100644
--- a/exchange/src/exchange/virtual_margin_account.rs
+++ b/exchange/src/exchange/virtual_margin_account.rs
@@ -414,8 +414,11 @@ impl VirtualMarginAccount {
     }
 
     fn _remove_active_request(&mut self, index: ListIndex) {
-        self.active_requests_len -= 1;
-        self.active_request_removals.push(index);
+        // Requests from before the last liquidation are no longer counted as active.
+        if index >= self.valid_requests_start {
+            self.active_requests_len -= 1;
+            self.active_request_removals.push(index);
+        }
     }
 
     fn _status_phases(&self, status: Status) -> Vec<Status> {
-- 
2.43.0

