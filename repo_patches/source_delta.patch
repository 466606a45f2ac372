From f37f5408f8a8b9b35beba182cf7ef8c484c3608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 1/6] fix: the sign of a short position's profit in
 auto-deleveraging

The cost of a short is negative, so dividing by it turned profits into losses:
profitable shorts were refused and losing ones closed.
---
 exchange/src/exchange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exchange/src/exchange.rs b/exchange/src/exchange.rs
index a7fc334..8f828d4 100644
--- a/exchange/src/exchange.rs
+++ b/exchange/src/exchange.rs
@@ -2348,7 +2348,7 @@ mod exchange_mod {
             let value = position.amount * price;
             let cost = position.cost;
 
-            let pnl_percent = (value - cost) / cost;
+            let pnl_percent = (value - cost) / cost.checked_abs().expect(ERROR_ARITHMETIC);
 
             let u = skew_ratio_0 / exchange_config.adl_a - exchange_config.adl_offset / exchange_config.adl_a;
             let threshold = -(u * u * u) - exchange_config.adl_b * u;
-- 
2.43.0


From 7a17c19b385ee84d7fb69db6bb42140bf507104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 2/6] fix: refuse configured ages and periods that do not fit
 their stored width

They are stored as u16, so 65536 passed validation and was stored as 0.
---
 config/src/config/structs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/src/config/structs.rs b/config/src/config/structs.rs
index 0283edb..983f4e4 100644
--- a/config/src/config/structs.rs
+++ b/config/src/config/structs.rs
@@ -253,11 +253,11 @@ pub struct PairConfigCompressed {
 
 impl PairConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.oi_max >= dec!(0), "Invalid oi maximum");
         assert!(self.trade_size_min >= dec!(0), "Invalid minimum trade size");
         assert!(self.update_price_delta_ratio > dec!(0), "Invalid pair update price delta ratio");
-        assert!(self.update_period_seconds > 0, "Invalid pair update period");
+        assert!(self.update_period_seconds > 0 && self.update_period_seconds <= u16::MAX as i64, "Invalid pair update period");
         assert!(self.margin_initial >= dec!(0) && self.margin_initial <= dec!(1), "Invalid initial margin");
         assert!(self.margin_maintenance >= dec!(0) && self.margin_maintenance <= dec!(1) && self.margin_maintenance <= self.margin_initial, "Invalid maintenance margin");
         assert!(self.funding_1 >= dec!(0) && self.funding_1 <= dec!(2), "Invalid funding 1");
@@ -344,7 +344,7 @@ pub struct CollateralConfigCompressed {
 
 impl CollateralConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.discount >= dec!(0.8) && self.discount <= dec!(1), "Invalid discount");
         assert!(self.margin >= dec!(0) && self.margin <= dec!(0.1), "Invalid margin");
     }
-- 
2.43.0


From 5c1816c4bf4ebe18796b634d6747ce20edddd5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 3/6] fix: unwrap only the base token

Any token that its holder may burn could be exchanged for the wrapped tokens.
---
 token_wrapper/src/token_wrapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/token_wrapper/src/token_wrapper.rs b/token_wrapper/src/token_wrapper.rs
index c42aeb7..f799ecc 100644
--- a/token_wrapper/src/token_wrapper.rs
+++ b/token_wrapper/src/token_wrapper.rs
@@ -156,6 +156,11 @@ mod token_wrapper_mod {
         }
 
         pub fn unwrap(&mut self, parent_token: Bucket, child_resource: ResourceAddress) -> Bucket {
+            assert!(
+                parent_token.resource_address() == BASE_RESOURCE,
+                "{}, VALUE:{}, REQUIRED:{}, OP:== |", ERROR_INVALID_PAYMENT_TOKEN, Runtime::bech32_encode_address(parent_token.resource_address()), Runtime::bech32_encode_address(BASE_RESOURCE)
+            );
+
             let mut child_vault = self.inputs.get_mut(&child_resource).expect(ERROR_INVALID_CHILD_TOKEN);
 
             let child_token = child_vault.vault.take_advanced(parent_token.amount(), TO_ZERO);
-- 
2.43.0


From 18b9dd834891612c849288a327e1926234299fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 4/6] fix: refuse request delays and expiries that do not fit
 in an i64

They wrapped around to negative ones, putting the submission or expiry in the past.
---
 exchange/src/exchange/virtual_margin_account.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exchange/src/exchange/virtual_margin_account.rs b/exchange/src/exchange/virtual_margin_account.rs
index 370b38c..45c89a7 100644
--- a/exchange/src/exchange/virtual_margin_account.rs
+++ b/exchange/src/exchange/virtual_margin_account.rs
@@ -255,8 +255,8 @@ impl VirtualMarginAccount {
             "{}, VALUE:{}, REQUIRED:{:?}, OP:contains |", ERROR_INVALID_REQUEST_STATUS, status, vec![STATUS_ACTIVE, STATUS_DORMANT]
         );
         let current_time = Clock::current_time_rounded_to_seconds();
-        let submission = current_time.add_seconds(delay_seconds as i64).expect(ERROR_ARITHMETIC);
-        let expiry = submission.add_seconds(expiry_seconds as i64).expect(ERROR_ARITHMETIC);
+        let submission = current_time.add_seconds(i64::try_from(delay_seconds).expect(ERROR_ARITHMETIC)).expect(ERROR_ARITHMETIC);
+        let expiry = submission.add_seconds(i64::try_from(expiry_seconds).expect(ERROR_ARITHMETIC)).expect(ERROR_ARITHMETIC);
 
         let keeper_request = KeeperRequest {
             request: request.encode(), 
-- 
2.43.0


From 5ef02c8e5946c6641008b04ef45db4e13c4cfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 5/6] fix: cancelling a request from before a liquidation

A liquidation empties the active requests, so cancelling an earlier one, directly or as an
order's linked request, made the count underflow, or come out one too low.
---
 exchange/src/exchange/virtual_margin_account.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exchange/src/exchange/virtual_margin_account.rs b/exchange/src/exchange/virtual_margin_account.rs
index 45c89a7..4e23d0f 100644
--- a/exchange/src/exchange/virtual_margin_account.rs
+++ b/exchange/src/exchange/virtual_margin_account.rs
@@ -414,7 +414,10 @@ impl VirtualMarginAccount {
     }
 
     fn _remove_active_request(&mut self, index: ListIndex) {
-        self.active_requests_len -= 1;
+        // Requests from before the last liquidation are not counted as active.
+        if index >= self.valid_requests_start {
+            self.active_requests_len -= 1;
+        }
         self.active_request_removals.push(index);
     }
 
-- 
2.43.0


From 4b8fb8a76f9eda49c76650120a3c2e84645a2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 6/6] fix: pages of any size and start

A page size or start near the largest index overflowed instead of giving what there is.
---
 account/src/margin_account.rs      | 4 ++--
 config/src/config.rs               | 2 +-
 token_wrapper/src/token_wrapper.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/account/src/margin_account.rs b/account/src/margin_account.rs
index d002ce8..8336c3a 100644
--- a/account/src/margin_account.rs
+++ b/account/src/margin_account.rs
@@ -112,13 +112,13 @@ pub mod margin_account {
 
         pub fn get_requests(&self, n: ListIndex, start: Option<ListIndex>) -> Vec<(ListIndex, KeeperRequest)> {
             let start = start.unwrap_or(0);
-            let end = (start + n).min(self.requests.len());
+            let end = start.saturating_add(n).min(self.requests.len());
             (start..end).zip(self.requests.range(start, end).into_iter()).collect()
         }
 
         pub fn get_requests_tail(&self, n: ListIndex, end: Option<ListIndex>) -> Vec<(ListIndex, KeeperRequest)> {
             let len = self.requests.len();
-            let end = end.map(|end| (end + 1).min(len)).unwrap_or(len);
+            let end = end.map(|end| end.saturating_add(1).min(len)).unwrap_or(len);
             let start = end - n.min(end);
             (start..end).rev().zip(self.requests.range(start, end).into_iter().rev()).collect()
         }
diff --git a/config/src/config.rs b/config/src/config.rs
index 272259f..ebbbff8 100644
--- a/config/src/config.rs
+++ b/config/src/config.rs
@@ -71,7 +71,7 @@ mod config_mod {
 
         pub fn get_pair_configs(&self, n: ListIndex, start: Option<ListIndex>) -> Vec<PairConfigCompressed> {
             let start = start.unwrap_or(0);
-            let end = (start + n).min(self.pairs.len());
+            let end = start.saturating_add(n).min(self.pairs.len());
             self.pairs.range(start, end)
         }
 
diff --git a/token_wrapper/src/token_wrapper.rs b/token_wrapper/src/token_wrapper.rs
index f799ecc..746e671 100644
--- a/token_wrapper/src/token_wrapper.rs
+++ b/token_wrapper/src/token_wrapper.rs
@@ -132,7 +132,7 @@ mod token_wrapper_mod {
 
         pub fn get_inputs(&self, n: ListIndex, start: Option<ListIndex>) -> Vec<(ResourceAddress, bool, Decimal)> {
             let start = start.unwrap_or(0);
-            let end = (start + n).min(self.input_list.len());
+            let end = start.saturating_add(n).min(self.input_list.len());
             self.input_list.range(start, end).into_iter().map(|child_resource| {
                 let child_vault = self.inputs.get(&child_resource).unwrap();
                 (child_resource, child_vault.wrappable, child_vault.vault.amount())
-- 
2.43.0

