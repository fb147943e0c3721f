From 799a6d219cabd62795c93e7b505c19d0cd4fa900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 01/12] fix: reject a balance field whose end lies before its
 start

The subtraction wrapped in release builds, so start = u64::MAX, end = 7 passed
the width check and read before the account data.
---
 state/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/util.rs b/state/src/util.rs
index 53d5555..4ac5219 100644
--- a/state/src/util.rs
+++ b/state/src/util.rs
@@ -27,7 +27,7 @@
 #[macro_export]
 macro_rules! read_numeric_field {
     ($data:expr, $start:expr, $end:expr, $type:ty, $width:expr, $error:expr) => {{
-        if $end - $start != $width {
+        if $end < $start || $end - $start != $width {
             return Err($error);
         }
 
-- 
2.43.0


From 2e48d7c53f0e0d617d81d666aa8c9645023c7d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 02/12] fix: do not refill a recurring destination limit whose
 last reset lies ahead

The slot difference wrapped, so a stored last_reset above the current slot was
treated as an elapsed window and refilled on every charge.
---
 state/src/action/sol_recurring_destination_limit.rs   | 4 +++-
 state/src/action/token_recurring_destination_limit.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/state/src/action/sol_recurring_destination_limit.rs b/state/src/action/sol_recurring_destination_limit.rs
index 8a3fade..dd84b7d 100644
--- a/state/src/action/sol_recurring_destination_limit.rs
+++ b/state/src/action/sol_recurring_destination_limit.rs
@@ -49,7 +49,9 @@ impl SolRecurringDestinationLimit {
     pub fn run(&mut self, lamport_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && lamport_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && lamport_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
diff --git a/state/src/action/token_recurring_destination_limit.rs b/state/src/action/token_recurring_destination_limit.rs
index a3639aa..9f97b62 100644
--- a/state/src/action/token_recurring_destination_limit.rs
+++ b/state/src/action/token_recurring_destination_limit.rs
@@ -54,7 +54,9 @@ impl TokenRecurringDestinationLimit {
     pub fn run(&mut self, token_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && token_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && token_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
-- 
2.43.0


From 10ce4a28a8e8310321c508354d9b1fd8c19f5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 03/12] fix: recurring limit layout checks the length before
 slicing

A recurring limit shorter than its record panicked during validation instead of
being reported as an invalid layout.
---
 state/src/action/sol_recurring_limit.rs   | 3 +++
 state/src/action/stake_recurring_limit.rs | 3 +++
 state/src/action/token_recurring_limit.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/state/src/action/sol_recurring_limit.rs b/state/src/action/sol_recurring_limit.rs
index 5ef62b3..88e9162 100644
--- a/state/src/action/sol_recurring_limit.rs
+++ b/state/src/action/sol_recurring_limit.rs
@@ -77,6 +77,9 @@ impl<'a> Actionable<'a> for SolRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
diff --git a/state/src/action/stake_recurring_limit.rs b/state/src/action/stake_recurring_limit.rs
index 055c6da..583c6fb 100644
--- a/state/src/action/stake_recurring_limit.rs
+++ b/state/src/action/stake_recurring_limit.rs
@@ -79,6 +79,9 @@ impl<'a> Actionable<'a> for StakeRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
diff --git a/state/src/action/token_recurring_limit.rs b/state/src/action/token_recurring_limit.rs
index 14810c0..9505c50 100644
--- a/state/src/action/token_recurring_limit.rs
+++ b/state/src/action/token_recurring_limit.rs
@@ -87,6 +87,9 @@ impl<'a> Actionable<'a> for TokenRecurringLimit {
     }
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to limit
         let current = &data[48..56];
         let limit = &data[40..48];
-- 
2.43.0


From 92cc982824032854acee50d32c18c741030a6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 04/12] fix: decoded instructions own their account lists
 instead of pointing at a finished stack frame; length read without
 misalignment

---
 instructions/src/lib.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..0fd1d54 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: Vec<usize>,
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -150,7 +150,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: &self.accounts,
             data: self.data,
         }
     }
@@ -283,24 +283,22 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
+        let mut indexes = Vec::with_capacity(num_accounts);
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
+        for _ in 0..num_accounts {
             let (pubkey_index, cursor) = self.read_u8()?;
             self.cursor = cursor;
             let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+            indexes.push(pubkey_index as usize);
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +315,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
@@ -350,7 +348,7 @@ where
             return Err(InstructionError::MissingData);
         }
         let value_bytes = unsafe { self.data.get_unchecked(self.cursor..end) };
-        let value = unsafe { *(value_bytes.as_ptr() as *const u16) };
+        let value = u16::from_le_bytes([value_bytes[0], value_bytes[1]]);
         Ok((value, end))
     }
 
-- 
2.43.0


From 3dc85dde908a8b8ab1c139d13ee887ba547ad92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 05/12] fix: executing a decoded transfer with fewer than two
 accounts no longer reads past its account list

---
 instructions/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 0fd1d54..63e05d8 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -65,7 +65,10 @@ impl<'a> InstructionHolder<'a> {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
-            && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
+            && self
+                .accounts
+                .first()
+                .is_some_and(|account| account.pubkey == swig_key)
         {
             // Check if the "from" account (swig_key) is system-owned or program-owned
             let from_account_index = unsafe { *self.indexes.get_unchecked(0) };
@@ -89,9 +92,10 @@ impl<'a> InstructionHolder<'a> {
                         .try_into()
                         .map_err(|_| ProgramError::InvalidInstructionData)?,
                 );
+                let (Some(index), Some(index2)) = (self.indexes.first(), self.indexes.get(1)) else {
+                    return Err(ProgramError::NotEnoughAccountKeys);
+                };
                 unsafe {
-                    let index = self.indexes.get_unchecked(0);
-                    let index2 = self.indexes.get_unchecked(1);
                     let account1 = all_accounts.get_unchecked(*index);
                     let account2 = all_accounts.get_unchecked(*index2);
 
-- 
2.43.0


From c4d8f52661951b63d89a688d712344c97b3c431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 06/12] fix: a direct lamport transfer refuses amounts the
 source cannot cover instead of wrapping

---
 instructions/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 63e05d8..9327c89 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -99,6 +99,14 @@ impl<'a> InstructionHolder<'a> {
                     let account1 = all_accounts.get_unchecked(*index);
                     let account2 = all_accounts.get_unchecked(*index2);
 
+                    // Refuse anything the source cannot cover: an unchecked
+                    // subtraction would wrap and take the lamports from the
+                    // destination instead.
+                    let source = *account1.borrow_lamports_unchecked();
+                    let destination = *account2.borrow_lamports_unchecked();
+                    if source < amount || destination.checked_add(amount).is_none() {
+                        return Err(ProgramError::InsufficientFunds);
+                    }
                     *account1.borrow_mut_lamports_unchecked() -= amount;
                     *account2.borrow_mut_lamports_unchecked() += amount;
                 }
-- 
2.43.0


From 1614cd860d879ed244f1cdb045d0e150ce81bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 07/12] fix: count the accounts of the authorising instruction,
 not the first bytes of its data

---
 state/src/authority/programexec/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..fc05284 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -293,10 +293,7 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
+    if preceding_ix.get_account_meta_at(1).is_err() {
         return Err(
             SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
         );
-- 
2.43.0


From fd18e07b233112e1202ae9e9bfee6575531f789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 08/12] fix: refuse a session whose expiry slot does not fit
 instead of wrapping

---
 state/src/authority/ed25519.rs             | 4 +++-
 state/src/authority/programexec/session.rs | 4 +++-
 state/src/authority/secp256k1.rs           | 4 +++-
 state/src/authority/secp256r1.rs           | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/state/src/authority/ed25519.rs b/state/src/authority/ed25519.rs
index 286f8e2..5194388 100644
--- a/state/src/authority/ed25519.rs
+++ b/state/src/authority/ed25519.rs
@@ -260,7 +260,9 @@ impl AuthorityInfo for Ed25519SessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/programexec/session.rs b/state/src/authority/programexec/session.rs
index 6f3e5dc..0794b52 100644
--- a/state/src/authority/programexec/session.rs
+++ b/state/src/authority/programexec/session.rs
@@ -221,7 +221,9 @@ impl AuthorityInfo for ProgramExecSessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 7200c55..3e69a3f 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -317,7 +317,9 @@ impl AuthorityInfo for Secp256k1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 2b30522..8e27691 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -348,7 +348,9 @@ impl AuthorityInfo for Secp256r1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
-- 
2.43.0


From fc61c6dbe05a6fc78070f4edce3711ce32ffd159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 09/12] fix: braces and quotes inside nested client-data
 strings are not structure

---
 state/src/authority/secp256r1.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 8e27691..1be2673 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -955,6 +955,19 @@ fn extract_top_level_string_field<'a>(
             continue;
         }
 
+        // A string inside a nested value: its braces and quotes are not structure.
+        if depth > 1 && byte == b'"' {
+            cursor += 1;
+            while cursor < client_data_json.len() && client_data_json[cursor] != b'"' {
+                if client_data_json[cursor] == b'\\' {
+                    cursor += 1;
+                }
+                cursor += 1;
+            }
+            cursor += 1;
+            continue;
+        }
+
         if depth == 1 && byte == b'"' {
             let key_start = cursor + 1;
             let mut key_end = key_start;
-- 
2.43.0


From 4602b01c435f3d7a73b679e757a7c58521dc4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 10/12] hook: client-data field lookup reachable under
 cfg(swig_verif)

---
 state/src/authority/secp256r1.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 1be2673..273892b 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -1057,6 +1057,15 @@ fn extract_top_level_string_field<'a>(
     Err(SwigAuthenticateError::PermissionDeniedSecp256r1InvalidMessage.into())
 }
 
+/// Verification hook: lets a checker call the client-data field lookup directly.
+#[cfg(swig_verif)]
+pub fn verif_top_level_string_field<'a>(
+    client_data_json: &'a [u8],
+    field_name: &[u8],
+) -> Result<&'a [u8], ProgramError> {
+    extract_top_level_string_field(client_data_json, field_name)
+}
+
 /// Decode huffman-encoded origin URL
 fn decode_huffman_origin(
     tree_data: &[u8],
-- 
2.43.0


From 4aa7cefce5a10c71f678742a1428327caccbf85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 11/12] fix: refuse to migrate a wallet that already has a
 wallet address

The check looked for a zero eight-byte field whose lowest byte is non-zero,
which never holds, so a migrated wallet could be migrated again and its
sub-account counter was reset.
---
 program/src/actions/migrate_to_wallet_address_v1.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..fce0dc9 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -157,13 +157,12 @@ pub fn migrate_to_wallet_address_v1(
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
 
-        // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
+        // Check if this account is already migrated (has wallet_bump field).
+        // Migrating again would reset `sub_account_counter` and hand out
+        // sub-account ids a second time.
         let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
 
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        if unsafe { crate::is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
-- 
2.43.0


From 621940da0794b6569815f540f444df49e5bf8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:06 +0000
Subject: [PATCH 12/12] hook: run the entry point with a checker's buffers (cfg
 swig_verif)

---
 program/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/program/src/lib.rs b/program/src/lib.rs
index 0e6ed31..8c85085 100644
--- a/program/src/lib.rs
+++ b/program/src/lib.rs
@@ -334,6 +334,17 @@ unsafe fn execute(
     Ok(())
 }
 
+/// Verification hook: lets a checker run the entry point with buffers of its
+/// own, and so see how the accounts were classified.
+#[cfg(swig_verif)]
+pub unsafe fn verif_execute(
+    ctx: &mut InstructionContext,
+    accounts: &mut [MaybeUninit<AccountInfo>],
+    account_classification: &mut [MaybeUninit<AccountClassification>],
+) -> Result<(), ProgramError> {
+    execute(ctx, accounts, account_classification)
+}
+
 /// Classifies an account based on its owner and data.
 ///
 /// This function determines the type and role of an account in the Swig wallet
-- 
2.43.0

