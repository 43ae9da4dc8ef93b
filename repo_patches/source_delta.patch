From e8665b315933188406b2aad968538e70aecadb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 1/4] fix: auto-deleverage profit percentage of short positions
 has the right sign

---
 exchange/src/exchange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exchange/src/exchange.rs b/exchange/src/exchange.rs
index a7fc334..8f828d4 100644
--- a/exchange/src/exchange.rs
+++ b/exchange/src/exchange.rs
@@ -2348,7 +2348,7 @@ mod exchange_mod {
             let value = position.amount * price;
             let cost = position.cost;
 
-            let pnl_percent = (value - cost) / cost;
+            let pnl_percent = (value - cost) / cost.checked_abs().expect(ERROR_ARITHMETIC);
 
             let u = skew_ratio_0 / exchange_config.adl_a - exchange_config.adl_offset / exchange_config.adl_a;
             let threshold = -(u * u * u) - exchange_config.adl_b * u;
-- 
2.43.0


From 547598eba84cf60946e13cfc4aff759fc0dbd183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 2/4] fix: unwrapping accepts base tokens only

---
 token_wrapper/src/token_wrapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/token_wrapper/src/token_wrapper.rs b/token_wrapper/src/token_wrapper.rs
index c42aeb7..f799ecc 100644
--- a/token_wrapper/src/token_wrapper.rs
+++ b/token_wrapper/src/token_wrapper.rs
@@ -156,6 +156,11 @@ mod token_wrapper_mod {
         }
 
         pub fn unwrap(&mut self, parent_token: Bucket, child_resource: ResourceAddress) -> Bucket {
+            assert!(
+                parent_token.resource_address() == BASE_RESOURCE,
+                "{}, VALUE:{}, REQUIRED:{}, OP:== |", ERROR_INVALID_PAYMENT_TOKEN, Runtime::bech32_encode_address(parent_token.resource_address()), Runtime::bech32_encode_address(BASE_RESOURCE)
+            );
+
             let mut child_vault = self.inputs.get_mut(&child_resource).expect(ERROR_INVALID_CHILD_TOKEN);
 
             let child_token = child_vault.vault.take_advanced(parent_token.amount(), TO_ZERO);
-- 
2.43.0


From 0f4f39dd8ce164d3ddcddff21c2e6e5158691d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:01 +0000
Subject: [PATCH 3/4] fix: durations in pair and collateral configurations fit
 their stored width

---
 config/src/config/structs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/src/config/structs.rs b/config/src/config/structs.rs
index 0283edb..983f4e4 100644
--- a/config/src/config/structs.rs
+++ b/config/src/config/structs.rs
@@ -253,11 +253,11 @@ pub struct PairConfigCompressed {
 
 impl PairConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.oi_max >= dec!(0), "Invalid oi maximum");
         assert!(self.trade_size_min >= dec!(0), "Invalid minimum trade size");
         assert!(self.update_price_delta_ratio > dec!(0), "Invalid pair update price delta ratio");
-        assert!(self.update_period_seconds > 0, "Invalid pair update period");
+        assert!(self.update_period_seconds > 0 && self.update_period_seconds <= u16::MAX as i64, "Invalid pair update period");
         assert!(self.margin_initial >= dec!(0) && self.margin_initial <= dec!(1), "Invalid initial margin");
         assert!(self.margin_maintenance >= dec!(0) && self.margin_maintenance <= dec!(1) && self.margin_maintenance <= self.margin_initial, "Invalid maintenance margin");
         assert!(self.funding_1 >= dec!(0) && self.funding_1 <= dec!(2), "Invalid funding 1");
@@ -344,7 +344,7 @@ pub struct CollateralConfigCompressed {
 
 impl CollateralConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.discount >= dec!(0.8) && self.discount <= dec!(1), "Invalid discount");
         assert!(self.margin >= dec!(0) && self.margin <= dec!(0.1), "Invalid margin");
     }
-- 
2.43.0


From 375a048534ea370d0217346590c3c2115559fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:01 +0000
Subject: [PATCH 4/4] fix: compact decimals keep the order of the values they
 store

---
 common/src/d_float.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/src/d_float.rs b/common/src/d_float.rs
index 71b153c..d30a46f 100644
--- a/common/src/d_float.rs
+++ b/common/src/d_float.rs
@@ -53,7 +53,12 @@ impl From<Decimal> for DFloat16 {
         let mut exp: i16 = pos_10 as i16 - 18;
         let mut sig: i16 = (value.0 / divisor).to_i16().unwrap();
 
-        if sig > 1024 || sig < -1023 {
+        if sig > 1024 && sig < 1030 {
+            // Dropping a digit would give less than the largest significand, keep the order of values
+            sig = 1024;
+        } else if sig < -1023 && sig > -1030 {
+            sig = -1023;
+        } else if sig > 1024 || sig < -1023 {
             sig /= 10;
             exp += 1;
         }
-- 
2.43.0

