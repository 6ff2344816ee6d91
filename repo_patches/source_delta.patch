From 2af5a10b6580226ec91b0607dba6bb20f0a95797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 1/3] fix: allowance() treats an approval expiring now as
 expired

An approval whose expires_at equals the ledger time can neither be spent
nor given, and is not listed, but icrc2_allowance still reported it and a
refund would re-approve with its expiry and trap.
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 9733829..0f2c96d 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2164,7 +2164,7 @@ fn reimburse_approval(
 pub fn allowance(account: &Account, spender: &Account, now: u64) -> (u128, u64) {
     let key = (to_account_key(account), to_account_key(spender));
     let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
-    if allowance.1 > 0 && allowance.1 < now {
+    if allowance.1 > 0 && allowance.1 <= now {
         return (0, 0);
     }
     allowance
-- 
2.43.0


From f466f816045a6117443debd178b486cff19d990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 2/3] fix: get_blocks clips large lengths instead of wrapping
 or skipping

start + length wrapped when max_blocks_per_request is close to u64::MAX,
and a length beyond u64 returned no blocks at all.
---
 cycles-ledger/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 0f2c96d..32d4302 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2376,10 +2376,9 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             Some(start) if start < log_length => start,
             _ => continue,
         };
-        let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start + remaining_length.min(length)),
-            _ => continue,
-        };
+        // a length beyond u64 asks for everything up to the end of the log
+        let length = length.0.to_u64().unwrap_or(u64::MAX);
+        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
         read_state(|state| {
             for id in start..end_excluded {
                 let block = state
-- 
2.43.0


From 0361aee439ae2d5b698a11e3fecfd65e8ac17409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 3/3] fix: a refund keeps the absence of an expiry of the
 approval in force

If the owner replaced an expiring approval by one without expiry while the
outbound call of the spender was in flight, giving back the allowance after
the call failed put the old expiry onto the new approval.
---
 cycles-ledger/src/storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 32d4302..56bac94 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2144,6 +2144,9 @@ fn reimburse_approval(
     let (current_allowance, current_expiry) = allowance(&from, &spender, now);
     let expires_at = if current_expiry > 0 {
         Some(current_expiry)
+    } else if current_allowance > 0 {
+        // The approval in force does not expire.
+        None
     } else {
         old_expires_at
     };
-- 
2.43.0

