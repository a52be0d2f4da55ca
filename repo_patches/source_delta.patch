From 5a8a8d6b9ae4ddcdb98bda98cc9feeea146a07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 01/26] fix: do not replenish a recurring destination limit
 early when its last reset lies in the future

---
 state/src/action/sol_recurring_destination_limit.rs   | 4 +++-
 state/src/action/token_recurring_destination_limit.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/state/src/action/sol_recurring_destination_limit.rs b/state/src/action/sol_recurring_destination_limit.rs
index 8a3fade..dd84b7d 100644
--- a/state/src/action/sol_recurring_destination_limit.rs
+++ b/state/src/action/sol_recurring_destination_limit.rs
@@ -49,7 +49,9 @@ impl SolRecurringDestinationLimit {
     pub fn run(&mut self, lamport_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && lamport_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && lamport_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
diff --git a/state/src/action/token_recurring_destination_limit.rs b/state/src/action/token_recurring_destination_limit.rs
index a3639aa..9f97b62 100644
--- a/state/src/action/token_recurring_destination_limit.rs
+++ b/state/src/action/token_recurring_destination_limit.rs
@@ -54,7 +54,9 @@ impl TokenRecurringDestinationLimit {
     pub fn run(&mut self, token_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && token_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && token_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
-- 
2.43.0


From 90dfc4496e10e744ebc11618cf0de6b9424da4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 02/26] fix: a scope balance range whose start lies behind its
 end is refused, not wrapped

---
 state/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/util.rs b/state/src/util.rs
index 53d5555..df23b25 100644
--- a/state/src/util.rs
+++ b/state/src/util.rs
@@ -27,7 +27,7 @@
 #[macro_export]
 macro_rules! read_numeric_field {
     ($data:expr, $start:expr, $end:expr, $type:ty, $width:expr, $error:expr) => {{
-        if $end - $start != $width {
+        if $end.checked_sub($start) != Some($width) {
             return Err($error);
         }
 
-- 
2.43.0


From ee5addb187313774dbc4cbf0ed1f87e0f7ea7b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 03/26] fix: refuse undefined program scope kinds and numeric
 types instead of truncating them to a byte

---
 state/src/action/program_scope.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/state/src/action/program_scope.rs b/state/src/action/program_scope.rs
index 8e1a5a7..7329c67 100644
--- a/state/src/action/program_scope.rs
+++ b/state/src/action/program_scope.rs
@@ -205,6 +205,14 @@ impl ProgramScope {
         Ok(())
     }
 
+    /// Returns the configured numeric type, refusing every undefined code.
+    fn numeric_type(&self) -> Result<NumericType, ProgramError> {
+        u8::try_from(self.numeric_type)
+            .ok()
+            .and_then(NumericType::from_u8)
+            .ok_or(ProgramError::InvalidArgument)
+    }
+
     /// Reads account balance from raw account data based on the configured
     /// field positions and type.
     ///
@@ -240,7 +248,7 @@ impl ProgramScope {
         let end = self.balance_field_end as usize;
 
         // Handle Possible NumericType fields
-        match NumericType::from_u8(self.numeric_type as u8).ok_or(ProgramError::InvalidArgument)? {
+        match self.numeric_type()? {
             NumericType::U8 => unsafe {
                 read_numeric_field!(
                     account_data,
@@ -295,9 +303,9 @@ impl ProgramScope {
     /// * `Ok(())` - If the operation is allowed
     /// * `Err(ProgramError)` - If the operation would exceed limits
     pub fn run(&mut self, amount: u128, current_slot: Option<u64>) -> Result<(), ProgramError> {
-        match self.scope_type as u8 {
-            x if x == ProgramScopeType::Basic as u8 => Ok(()),
-            x if x == ProgramScopeType::Limit as u8 => {
+        match self.scope_type {
+            x if x == ProgramScopeType::Basic as u64 => Ok(()),
+            x if x == ProgramScopeType::Limit as u64 => {
                 // For Limit type, current_amount represents the total spent so far
                 // We need to check if adding the new amount would exceed the limit
                 if self.current_amount.saturating_add(amount) > self.limit {
@@ -306,7 +314,7 @@ impl ProgramScope {
                 self.current_amount = self.current_amount.saturating_add(amount);
                 Ok(())
             },
-            x if x == ProgramScopeType::RecurringLimit as u8 => {
+            x if x == ProgramScopeType::RecurringLimit as u64 => {
                 let current_slot = current_slot.ok_or(ProgramError::InvalidArgument)?;
 
                 // Check if window has passed and reset the spent amount if needed
@@ -360,7 +368,7 @@ impl ProgramScope {
     pub fn set_current_amount<T: Into<u128>>(&mut self, amount: T) -> Result<(), ProgramError> {
         let amount_u128 = amount.into();
         // Validate the amount based on the numeric type
-        match NumericType::from_u8(self.numeric_type as u8).ok_or(ProgramError::InvalidArgument)? {
+        match self.numeric_type()? {
             NumericType::U8 if amount_u128 > u8::MAX as u128 => {
                 return Err(ProgramError::InvalidArgument)
             },
@@ -390,7 +398,7 @@ impl ProgramScope {
         T: Into<u128>,
     {
         let amount_u128 = amount.into();
-        match NumericType::from_u8(self.numeric_type as u8).ok_or(ProgramError::InvalidArgument)? {
+        match self.numeric_type()? {
             NumericType::U8 if amount_u128 > u8::MAX as u128 => {
                 return Err(ProgramError::InvalidArgument)
             },
-- 
2.43.0


From f5527099b0099eaa4ab4c9fb31f8456ee669b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 04/26] fix: a mint or program permission never matches subject
 data shorter than a key instead of panicking

---
 state/src/action/program.rs               | 2 +-
 state/src/action/token_limit.rs           | 2 +-
 state/src/action/token_recurring_limit.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/state/src/action/program.rs b/state/src/action/program.rs
index 46e9e7c..6e1041f 100644
--- a/state/src/action/program.rs
+++ b/state/src/action/program.rs
@@ -45,6 +45,6 @@ impl<'a> Actionable<'a> for Program {
     /// # Arguments
     /// * `data` - The program ID to check against (first 32 bytes)
     fn match_data(&self, data: &[u8]) -> bool {
-        data[0..32] == self.program_id
+        data.len() >= 32 && data[0..32] == self.program_id
     }
 }
diff --git a/state/src/action/token_limit.rs b/state/src/action/token_limit.rs
index 565a383..b14517f 100644
--- a/state/src/action/token_limit.rs
+++ b/state/src/action/token_limit.rs
@@ -69,6 +69,6 @@ impl<'a> Actionable<'a> for TokenLimit {
     /// # Arguments
     /// * `data` - The token mint to check against (first 32 bytes)
     fn match_data(&self, data: &[u8]) -> bool {
-        data[0..32] == self.token_mint
+        data.len() >= 32 && data[0..32] == self.token_mint
     }
 }
diff --git a/state/src/action/token_recurring_limit.rs b/state/src/action/token_recurring_limit.rs
index 14810c0..85a25c0 100644
--- a/state/src/action/token_recurring_limit.rs
+++ b/state/src/action/token_recurring_limit.rs
@@ -83,7 +83,7 @@ impl<'a> Actionable<'a> for TokenRecurringLimit {
     /// # Arguments
     /// * `data` - The token mint to check against (first 32 bytes)
     fn match_data(&self, data: &[u8]) -> bool {
-        data[0..32] == self.token_mint
+        data.len() >= 32 && data[0..32] == self.token_mint
     }
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
-- 
2.43.0


From e769b029752503f1e0e8591511dc78140cfd2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 05/26] fix: validating a recurring cap of the wrong size
 refuses it instead of panicking

---
 state/src/action/sol_recurring_limit.rs   | 9 ++++-----
 state/src/action/stake_recurring_limit.rs | 9 ++++-----
 state/src/action/token_recurring_limit.rs | 5 ++++-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/state/src/action/sol_recurring_limit.rs b/state/src/action/sol_recurring_limit.rs
index 5ef62b3..a95a51f 100644
--- a/state/src/action/sol_recurring_limit.rs
+++ b/state/src/action/sol_recurring_limit.rs
@@ -77,15 +77,14 @@ impl<'a> Actionable<'a> for SolRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8])
     }
 }
diff --git a/state/src/action/stake_recurring_limit.rs b/state/src/action/stake_recurring_limit.rs
index 055c6da..c0bc2c4 100644
--- a/state/src/action/stake_recurring_limit.rs
+++ b/state/src/action/stake_recurring_limit.rs
@@ -79,15 +79,14 @@ impl<'a> Actionable<'a> for StakeRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8])
     }
 }
diff --git a/state/src/action/token_recurring_limit.rs b/state/src/action/token_recurring_limit.rs
index 85a25c0..1956ecb 100644
--- a/state/src/action/token_recurring_limit.rs
+++ b/state/src/action/token_recurring_limit.rs
@@ -87,11 +87,14 @@ impl<'a> Actionable<'a> for TokenRecurringLimit {
     }
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to limit
         let current = &data[48..56];
         let limit = &data[40..48];
         // last reset needs to be 0
         let last_reset = &data[56..64];
-        Ok(current == limit && last_reset == &[0u8; 8] && data.len() == Self::LEN)
+        Ok(current == limit && last_reset == &[0u8; 8])
     }
 }
-- 
2.43.0


From d366745dcd8be542850de1336c0cb81796cbc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 06/26] fix: refuse a sub-account permission whose stored
 enabled flag is not a valid bool

---
 state/src/action/sub_account.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/state/src/action/sub_account.rs b/state/src/action/sub_account.rs
index 78c0371..a417635 100644
--- a/state/src/action/sub_account.rs
+++ b/state/src/action/sub_account.rs
@@ -121,8 +121,9 @@ impl<'a> Actionable<'a> for SubAccount {
     /// * `Ok(false)` - If the data is invalid
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
         if data.len() == Self::LEN {
-            // Check that the sub_account field (first 32 bytes) is zeroed
-            Ok(data[0..32] == [0u8; 32])
+            // Check that the sub_account field (first 32 bytes) is zeroed and that
+            // the enabled flag (byte 33) is a valid bool
+            Ok(data[0..32] == [0u8; 32] && data[33] <= 1)
         } else {
             Ok(false)
         }
-- 
2.43.0


From 9c3c8a61c7a4dd8173a634317d507856e8d003e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 07/26] fix: find_action returns the action's data, not the
 bytes of its header

---
 state/src/action/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state/src/action/mod.rs b/state/src/action/mod.rs
index d86f2e5..5cf1b46 100644
--- a/state/src/action/mod.rs
+++ b/state/src/action/mod.rs
@@ -355,8 +355,9 @@ impl ActionLoader {
         while cursor < bytes.len() {
             let action = unsafe { Action::load_unchecked(&bytes[cursor..cursor + Action::LEN])? };
             if action.permission() == Ok(T::TYPE) {
+                let data_start = cursor + Action::LEN;
                 return Ok(Some(unsafe {
-                    T::load_unchecked(&bytes[cursor..cursor + action.length() as usize])?
+                    T::load_unchecked(&bytes[data_start..data_start + action.length() as usize])?
                 }));
             }
             cursor = action.boundary() as usize;
-- 
2.43.0


From 23fb98b8d3ce952ef9a45b19946a0033917ffb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 08/26] fix: program-exec session creation data encodes only
 its own bytes (it read 8 bytes past the record)

---
 state/src/authority/programexec/session.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/state/src/authority/programexec/session.rs b/state/src/authority/programexec/session.rs
index 6f3e5dc..860eb35 100644
--- a/state/src/authority/programexec/session.rs
+++ b/state/src/authority/programexec/session.rs
@@ -29,6 +29,8 @@ pub struct CreateProgramExecSessionAuthority {
     pub session_key: [u8; 32],
     /// Maximum duration a session can be valid for
     pub max_session_length: u64,
+    /// Reserved, so that the creation data has the size of the stored record
+    _reserved: [u8; 8],
 }
 
 impl CreateProgramExecSessionAuthority {
@@ -54,12 +56,13 @@ impl CreateProgramExecSessionAuthority {
             _padding: [0; 7],
             session_key,
             max_session_length,
+            _reserved: [0; 8],
         }
     }
 }
 
 impl Transmutable for CreateProgramExecSessionAuthority {
-    const LEN: usize = core::mem::size_of::<ProgramExecSessionAuthority>();
+    const LEN: usize = core::mem::size_of::<CreateProgramExecSessionAuthority>();
 }
 
 impl IntoBytes for CreateProgramExecSessionAuthority {
-- 
2.43.0


From 33794364ea7cf85fba44598b6146a59402cffeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 09/26] fix: the curated program list holds the addresses of
 Token-2022 and the stake program it names

---
 state/src/action/program_curated.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/state/src/action/program_curated.rs b/state/src/action/program_curated.rs
index fe5c488..e3cf6b5 100644
--- a/state/src/action/program_curated.rs
+++ b/state/src/action/program_curated.rs
@@ -24,13 +24,13 @@ const CURATED_PROGRAMS: &[[u8; 32]] = &[
     ],
     // SPL Token 2022 Program (TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb)
     [
-        6, 221, 246, 225, 238, 117, 143, 222, 138, 60, 137, 215, 166, 35, 250, 133, 224, 81, 209,
-        114, 91, 157, 99, 29, 94, 145, 213, 104, 233, 4, 16, 238,
+        6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252,
+        77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252,
     ],
     // Staking Program (Stake11111111111111111111111111111111111111)
     [
-        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 86, 165, 18, 7,
-        142, 233, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92,
+        138, 120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0,
     ],
 ];
 
-- 
2.43.0


From c9b33586881fa4f73b135e96c9b64e94b21f33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 10/26] fix: refuse a session whose expiry slot would overflow
 instead of wrapping it into the past

---
 state/src/authority/ed25519.rs             | 4 +++-
 state/src/authority/programexec/session.rs | 4 +++-
 state/src/authority/secp256k1.rs           | 4 +++-
 state/src/authority/secp256r1.rs           | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/state/src/authority/ed25519.rs b/state/src/authority/ed25519.rs
index 286f8e2..5194388 100644
--- a/state/src/authority/ed25519.rs
+++ b/state/src/authority/ed25519.rs
@@ -260,7 +260,9 @@ impl AuthorityInfo for Ed25519SessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/programexec/session.rs b/state/src/authority/programexec/session.rs
index 860eb35..b74b09e 100644
--- a/state/src/authority/programexec/session.rs
+++ b/state/src/authority/programexec/session.rs
@@ -224,7 +224,9 @@ impl AuthorityInfo for ProgramExecSessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 7200c55..3e69a3f 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -317,7 +317,9 @@ impl AuthorityInfo for Secp256k1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 2b30522..8e27691 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -348,7 +348,9 @@ impl AuthorityInfo for Secp256r1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
-- 
2.43.0


From 49c2b939d04f5cc2eac77867cdaad748066a794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 11/26] fix: refuse an empty secp256k1 session payload instead
 of panicking

---
 state/src/authority/secp256k1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 3e69a3f..0934779 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -298,6 +298,10 @@ impl AuthorityInfo for Secp256k1SessionAuthority {
         _data_payload: &[u8],
         slot: u64,
     ) -> Result<(), ProgramError> {
+        if authority_payload.is_empty() {
+            return Err(SwigAuthenticateError::InvalidAuthorityPayload.into());
+        }
+
         if slot > self.current_session_expiration {
             return Err(SwigAuthenticateError::PermissionDeniedSessionExpired.into());
         }
-- 
2.43.0


From 9e97a6f69601388a9dbcb66ac306fae7fe2224f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 12/26] fix: refuse secp256r1 evidence too short for the
 expected message instead of panicking

---
 state/src/authority/secp256r1.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 8e27691..29e66a9 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -656,8 +656,9 @@ pub fn verify_secp256r1_instruction_data(
 
     let pubkey_data = &instruction_data
         [PUBKEY_DATA_OFFSET..PUBKEY_DATA_OFFSET + COMPRESSED_PUBKEY_SERIALIZED_SIZE];
-    let message_data =
-        &instruction_data[MESSAGE_DATA_OFFSET..MESSAGE_DATA_OFFSET + expected_message.len()];
+    let message_data = instruction_data
+        .get(MESSAGE_DATA_OFFSET..MESSAGE_DATA_OFFSET + expected_message.len())
+        .ok_or(SwigAuthenticateError::PermissionDeniedSecp256r1InvalidInstruction)?;
 
     if pubkey_data != expected_pubkey {
         return Err(SwigAuthenticateError::PermissionDeniedSecp256r1InvalidPubkey.into());
-- 
2.43.0


From cf3dc5f8f7c05cb210dfdf54e85f5f7152c1be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 13/26] fix: program-exec authentication counts the
 instruction's accounts, not its first data bytes

---
 state/src/authority/programexec/mod.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..b51b2e0 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -293,14 +293,14 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
+    let (Ok(account_0), Ok(account_1)) = (
+        preceding_ix.get_account_meta_at(0),
+        preceding_ix.get_account_meta_at(1),
+    ) else {
         return Err(
             SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
         );
-    }
+    };
 
     // Verify the instruction is calling the expected program
     if !sol_assert_bytes_eq(preceding_ix.get_program_id(), expected_program_id, 32) {
@@ -326,11 +326,7 @@ pub fn program_exec_authenticate(
     }
 
     // Verify the first two accounts of the preceding instruction are config and
-    // wallet Get account meta at index 0 (should be config)
-    let account_0 = unsafe { preceding_ix.get_account_meta_at_unchecked(0) };
-    let account_1 = unsafe { preceding_ix.get_account_meta_at_unchecked(1) };
-
-    // Verify the accounts match the config and wallet keys
+    // wallet. Verify the accounts match the config and wallet keys
     if !sol_assert_bytes_eq(account_0.key.as_ref(), config_account.key(), 32) {
         return Err(SwigAuthenticateError::PermissionDeniedProgramExecInvalidConfigAccount.into());
     }
-- 
2.43.0


From a746481aa2e437db5e2414203e1ef23eac0dd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 14/26] fix: program-exec authorities with different prefix
 lengths are not the same authority

---
 state/src/authority/programexec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index b51b2e0..b370454 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -142,7 +142,7 @@ impl AuthorityInfo for ProgramExecAuthority {
         // The identity slice spans the full struct (80 bytes) to include both
         // program_id and instruction_prefix which are separated by
         // instruction_prefix_len and padding
-        if data.len() != Self::LEN {
+        if data.len() != Self::LEN || data[32] != self.instruction_prefix_len {
             return false;
         }
         // The identity slice includes intermediate bytes (instruction_prefix_len +
-- 
2.43.0


From 3308c83108bd6d9bd4c90a64b59f99e6087d852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 15/26] fix: a newly created session authority never inherits a
 running session from its storage

---
 state/src/authority/ed25519.rs   | 1 +
 state/src/authority/secp256k1.rs | 1 +
 state/src/authority/secp256r1.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/state/src/authority/ed25519.rs b/state/src/authority/ed25519.rs
index 5194388..4625258 100644
--- a/state/src/authority/ed25519.rs
+++ b/state/src/authority/ed25519.rs
@@ -218,6 +218,7 @@ impl Authority for Ed25519SessionAuthority {
         authority.public_key = create.public_key;
         authority.session_key = create.session_key;
         authority.max_session_length = create.max_session_length;
+        authority.current_session_expiration = 0;
         Ok(())
     }
 }
diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 0934779..5307820 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -231,6 +231,7 @@ impl Authority for Secp256k1SessionAuthority {
         authority.signature_odometer = 0;
         authority.session_key = create.session_key;
         authority.max_session_age = create.max_session_length;
+        authority.current_session_expiration = 0;
         Ok(())
     }
 }
diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 29e66a9..c29b371 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -264,6 +264,7 @@ impl Authority for Secp256r1SessionAuthority {
         authority.signature_odometer = 0;
         authority.session_key = create.session_key;
         authority.max_session_age = create.max_session_length;
+        authority.current_session_expiration = 0;
         Ok(())
     }
 }
-- 
2.43.0


From d3446e4e5e5ac369e014c0b1be9dac11f9afce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 16/26] fix: a new program-exec authority keeps no earlier
 bytes behind its instruction prefix

---
 state/src/authority/programexec/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index b370454..053b479 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -116,6 +116,7 @@ impl Authority for ProgramExecAuthority {
         assert_program_exec_cant_be_swig(create_data_program_id)?;
         authority.program_id.copy_from_slice(create_data_program_id);
         authority.instruction_prefix_len = prefix_len as u8;
+        authority.instruction_prefix = [0; MAX_INSTRUCTION_PREFIX_LEN];
         authority.instruction_prefix[..prefix_len]
             .copy_from_slice(&create_data[IX_PREFIX_OFFSET..IX_PREFIX_OFFSET + prefix_len]);
         Ok(())
-- 
2.43.0


From 532d587e2b6fc374d96614d834560adda103faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 17/26] fix: on chain, byte strings of different length never
 compare equal

---
 assertions/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/assertions/src/lib.rs b/assertions/src/lib.rs
index 2a463af..de10928 100644
--- a/assertions/src/lib.rs
+++ b/assertions/src/lib.rs
@@ -17,6 +17,10 @@ use std::mem::MaybeUninit;
 #[inline(always)]
 #[cfg(target_os = "solana")]
 pub fn sol_assert_bytes_eq(left: &[u8], right: &[u8], len: usize) -> bool {
+    // sol_memcmp_ compares left.len() bytes, wherever right ends
+    if left.len() != right.len() {
+        return false;
+    }
     unsafe {
         let mut result = MaybeUninit::<i32>::uninit();
         sol_memcmp_(
-- 
2.43.0


From 42eaa956992037c380d49e5ae9cc3a9cefd5c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 18/26] fix: keep decoded account metas alive in
 InstructionHolder

parse_next_instruction returned slices into its own stack frame, so the
account metas and indexes of a decoded instruction were dangling, and a
payload declaring 255 accounts panicked instead of being refused.
---
 instructions/src/lib.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..dbd9201 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: Vec<usize>,
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -150,7 +150,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: &self.accounts,
             data: self.data,
         }
     }
@@ -283,24 +283,25 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        if num_accounts > MAX_ACCOUNTS {
+            return Err(InstructionError::MissingAccountInfo);
+        }
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
+        let mut indexes = Vec::with_capacity(num_accounts);
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
+        for _ in 0..num_accounts {
             let (pubkey_index, cursor) = self.read_u8()?;
             self.cursor = cursor;
             let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+            indexes.push(pubkey_index as usize);
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +318,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
-- 
2.43.0


From 881d016a0259a6c8e61db0ddc66959df2d7f8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 19/26] fix: read instruction data lengths without an aligned
 pointer cast

The u16 at an odd offset was read through a misaligned *const u16.
---
 instructions/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index dbd9201..6adc87a 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -351,7 +351,7 @@ where
             return Err(InstructionError::MissingData);
         }
         let value_bytes = unsafe { self.data.get_unchecked(self.cursor..end) };
-        let value = unsafe { *(value_bytes.as_ptr() as *const u16) };
+        let value = u16::from_le_bytes([value_bytes[0], value_bytes[1]]);
         Ok((value, end))
     }
 
-- 
2.43.0


From 9365b8460e2c7173eae501a8d27462419b646c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 20/26] fix: check that a system transfer has its accounts
 before using them

A transfer from the wallet with fewer than two accounts read past the
decoded accounts.
---
 instructions/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 6adc87a..bf50564 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -65,7 +65,7 @@ impl<'a> InstructionHolder<'a> {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
-            && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
+            && matches!(self.accounts.first(), Some(from) if from.pubkey == swig_key)
         {
             // Check if the "from" account (swig_key) is system-owned or program-owned
             let from_account_index = unsafe { *self.indexes.get_unchecked(0) };
@@ -89,9 +89,12 @@ impl<'a> InstructionHolder<'a> {
                         .try_into()
                         .map_err(|_| ProgramError::InvalidInstructionData)?,
                 );
+                let index2 = self
+                    .indexes
+                    .get(1)
+                    .ok_or(ProgramError::NotEnoughAccountKeys)?;
                 unsafe {
                     let index = self.indexes.get_unchecked(0);
-                    let index2 = self.indexes.get_unchecked(1);
                     let account1 = all_accounts.get_unchecked(*index);
                     let account2 = all_accounts.get_unchecked(*index2);
 
-- 
2.43.0


From 40ad266497b39975ebe5312f7fe9c015cc6aa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 21/26] fix: refuse to migrate a wallet that is already of the
 current generation

---
 program/src/actions/migrate_to_wallet_address_v1.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..6262ff0 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -157,17 +157,15 @@ pub fn migrate_to_wallet_address_v1(
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
 
-        // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
-        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
-
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        // Check if this account is already migrated (has wallet_bump field). The
+        // field shares its bytes with `reserved_lamports`, so the decision is the
+        // one every other instruction takes.
+        if unsafe { crate::is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
 
+        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
         (
             old_swig.id,
             old_swig.bump,
-- 
2.43.0


From 42c5660ca1c44c02b98b8eb224fb3d539cc86b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 22/26] fix: a scoped account's starting balance is read by the
 acting role's own scope

---
 program/src/actions/sign_v2.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 178bb8c..dbf815f 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -48,7 +48,7 @@ use crate::{
         accounts::{Context, SignV2Accounts},
         SwigInstruction,
     },
-    util::hash_except,
+    util::{hash_except, read_program_scope_account_balance},
     AccountClassification, SPL_TOKEN_2022_ID, SPL_TOKEN_ID, SYSTEM_PROGRAM_ID,
 };
 // use swig_instructions::InstructionIterator;
@@ -306,7 +306,7 @@ pub fn sign_v2(
     let mut total_sol_spent: u64 = 0;
 
     // Build exclusion ranges for each account type for snapshots
-    for (index, account_classifier) in account_classifiers.iter().enumerate() {
+    for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
 
         // Only check writable accounts as read-only accounts won't modify data
@@ -338,7 +338,7 @@ pub fn sign_v2(
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
                 Some(hash)
             },
-            AccountClassification::ProgramScope { .. } => {
+            AccountClassification::ProgramScope { balance, .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
                 // For program scope, we need to get the actual program scope to know what to
                 // exclude, and include owner in hash
@@ -346,6 +346,10 @@ pub fn sign_v2(
                 if let Some(program_scope) =
                     RoleMut::get_action_mut::<ProgramScope>(role.actions, account_key.as_ref())?
                 {
+                    // The classifier reads the balance by the first scope any role
+                    // has for this account, which need not be the acting role's.
+                    *balance = unsafe { read_program_scope_account_balance(data, program_scope)? };
+
                     let start = program_scope.balance_field_start as usize;
                     let end = program_scope.balance_field_end as usize;
                     if start < end && end <= data.len() {
-- 
2.43.0


From 003285111d1b89fcd1a63f66f72344df2ff9b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 23/26] fix: a scoped account without a pre-call snapshot is
 refused instead of compared with an uninitialized one

---
 program/src/actions/sign_v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index dbf815f..a3f14ea 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -357,7 +357,7 @@ pub fn sign_v2(
                         let hash = hash_except(&data, account.owner(), &exclude_ranges);
                         Some(hash)
                     } else {
-                        None
+                        return Err(SwigError::InvalidProgramScopeBalanceFields.into());
                     }
                 } else {
                     None
-- 
2.43.0


From e24cd31db23eab74f0a4c1920025301a02600e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 24/26] fix: an undefined numeric type of a scope is refused
 when classifying instead of truncated to a byte

---
 program/src/util/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/program/src/util/mod.rs b/program/src/util/mod.rs
index ef3b464..cd5c9a6 100644
--- a/program/src/util/mod.rs
+++ b/program/src/util/mod.rs
@@ -207,17 +207,17 @@ pub unsafe fn read_program_scope_account_balance(
 
     // Handle Possible NumericType fields
     let error = SwigError::InvalidProgramScopeBalanceFields.into();
-    match program_scope.numeric_type as u8 {
-        numeric_type if numeric_type == NumericType::U8 as u8 => {
+    match program_scope.numeric_type {
+        numeric_type if numeric_type == NumericType::U8 as u64 => {
             read_numeric_field!(data, start, end, u8, 1, error)
         },
-        numeric_type if numeric_type == NumericType::U32 as u8 => {
+        numeric_type if numeric_type == NumericType::U32 as u64 => {
             read_numeric_field!(data, start, end, u32, 4, error)
         },
-        numeric_type if numeric_type == NumericType::U64 as u8 => {
+        numeric_type if numeric_type == NumericType::U64 as u64 => {
             read_numeric_field!(data, start, end, u64, 8, error)
         },
-        numeric_type if numeric_type == NumericType::U128 as u8 => {
+        numeric_type if numeric_type == NumericType::U128 as u64 => {
             read_numeric_field!(data, start, end, u128, 16, error)
         },
         _ => Err(SwigError::InvalidProgramScopeBalanceFields.into()),
-- 
2.43.0


From 5ba2d9ae10884fb75641b6191a2ec52be4986811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 25/26] fix: closing a token account does not waive the limits
 on the tokens that left it

---
 program/src/actions/sign_v2.rs | 87 ++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index a3f14ea..57ca937 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -305,6 +305,10 @@ pub fn sign_v2(
 
     let mut total_sol_spent: u64 = 0;
 
+    // Mints of the tracked token accounts: an account closed by a CPI no longer
+    // tells which limit the tokens that left it are charged to.
+    let mut token_mints: Vec<(usize, Pubkey)> = Vec::with_capacity(4);
+
     // Build exclusion ranges for each account type for snapshots
     for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
@@ -329,6 +333,9 @@ pub fn sign_v2(
                 // Exclude token balance field (bytes 64-72) but include owner
                 let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
+                let mut mint = Pubkey::default();
+                mint.copy_from_slice(&data[TOKEN_MINT_RANGE]);
+                token_mints.push((index, mint));
                 Some(hash)
             },
             AccountClassification::SwigStakeAccount { .. } => {
@@ -417,15 +424,16 @@ pub fn sign_v2(
                     AccountClassification::SwigTokenAccount { balance, spent } => {
                         let data = unsafe { account.borrow_data_unchecked() };
 
-                        if data.len() < TOKEN_BALANCE_RANGE.end {
-                            continue;
-                        }
-
-                        let current = u64::from_le_bytes(unsafe {
-                            data.get_unchecked(TOKEN_BALANCE_RANGE)
-                                .try_into()
-                                .unwrap_or([0; 8])
-                        });
+                        // A closed account holds nothing any more.
+                        let current = if data.len() < TOKEN_BALANCE_RANGE.end {
+                            0
+                        } else {
+                            u64::from_le_bytes(unsafe {
+                                data.get_unchecked(TOKEN_BALANCE_RANGE)
+                                    .try_into()
+                                    .unwrap_or([0; 8])
+                            })
+                        };
 
                         if current < *balance {
                             *spent = spent.saturating_add(*balance - current);
@@ -619,7 +627,8 @@ pub fn sign_v2(
                 // The on-chain token program resizes closed accounts to zero bytes,
                 // while its native test processor retains zeroed data. Both forms
                 // drain the account's lamports and assign it to the system program.
-                if data.is_empty() || account_info.lamports() == 0 {
+                let closed = data.is_empty() || account_info.lamports() == 0;
+                if closed {
                     let has_close_permission =
                         RoleMut::get_action_mut::<CloseSwigAuthority>(actions, &[])?.is_some();
                     if !has_close_permission {
@@ -628,43 +637,49 @@ pub fn sign_v2(
                     if account_info.lamports() != 0 || account_info.owner() != &SYSTEM_PROGRAM_ID {
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
-
-                    continue;
-                }
-
-                if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
-                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
-                }
-
-                if account_info.is_writable() {
-                    let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
-                    let current_hash = hash_except(&data, account_info.owner(), &exclude_ranges);
-                    let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
-                    if *snapshot_hash != current_hash {
+                } else {
+                    if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
-                }
 
-                let mint = unsafe { data.get_unchecked(TOKEN_MINT_RANGE) };
-                let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
-                let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
+                    if account_info.is_writable() {
+                        let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
+                        let current_hash =
+                            hash_except(&data, account_info.owner(), &exclude_ranges);
+                        let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
+                        if *snapshot_hash != current_hash {
+                            return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                        }
+                    }
 
-                if authority != ctx.accounts.swig_wallet_address.key() {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig.into(),
-                    );
-                }
-                if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized.into(),
-                    );
+                    let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
+                    let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
+
+                    if authority != ctx.accounts.swig_wallet_address.key() {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig
+                                .into(),
+                        );
+                    }
+                    if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized
+                                .into(),
+                        );
+                    }
                 }
 
+                // Closing the account does not waive the limits on the tokens that
+                // left it.
                 let total_token_spent = *spent;
                 if total_token_spent == 0 {
                     continue;
                 }
 
+                let Some((_, mint)) = token_mints.iter().find(|(i, _)| *i == index) else {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                };
+
                 let general_token_limit_applied =
                     if let Some(action) = RoleMut::get_action_mut::<TokenLimit>(actions, mint)? {
                         action.run(total_token_spent)?;
-- 
2.43.0


From 3ae756d4461d7dcd0d6d02c079292a15405cea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 26/26] fix: a signed request cannot give the wallet address to
 another program

---
 program/src/actions/sign_v2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 57ca937..e5deeaf 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -548,6 +548,12 @@ pub fn sign_v2(
                     return Err(SwigAuthenticateError::PermissionDeniedInsufficientBalance.into());
                 }
 
+                // A CPI may have assigned the wallet address to a program that
+                // could later debit it without any of the limits.
+                if ctx.accounts.swig_wallet_address.owner() != &SYSTEM_PROGRAM_ID {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                }
+
                 if total_sol_spent == 0 {
                     continue;
                 }
-- 
2.43.0

