From ffb01ab7b31f6a0aac3774ccbdf4a86cdc4eabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:39 +0000
Subject: [PATCH 01/29] fix: validate the extension data (not its header) when
 updating from a buffer

---
 programs/asset/program/src/processor/update.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..15b0d3c 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -202,10 +202,11 @@ pub fn process_update(
             drop(extension_data);
 
             let start = offset + Extension::LEN;
+            let buffer_start = Asset::LEN + Extension::LEN;
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[buffer_start..buffer_start + header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From 1669e81b864d00ce7bc4f1692e2854218634b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:39 +0000
Subject: [PATCH 02/29] fix: update of an asset with spare capacity after its
 extensions

---
 programs/asset/program/src/processor/update.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 15b0d3c..36c3cdb 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -158,7 +158,7 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
@@ -347,8 +347,14 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+            // the remaining bytes are spare capacity
+            if let Ok(ExtensionType::None) = extension.try_extension_type() {
+                break;
+            }
+
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From 0117ef033d98bed8f95d163b1fb72dc6f67ca27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 03/29] fix: validate an extension update without data

---
 .../asset/program/src/processor/update.rs     | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 36c3cdb..debac7b 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -220,25 +220,22 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
-                let start = offset + Extension::LEN;
-                // validate the extension data
-                validate(
-                    extension_type,
-                    extension_data.as_mut_slice(),
-                    if update {
-                        Some(&mut account_data[start..start + current_length])
-                    } else {
-                        None
-                    },
-                    ctx.accounts.authority.key(),
-                )?;
+            // extension might not have any data
+            let mut extension_data = args.data.unwrap_or_default();
+            let start = offset + Extension::LEN;
+            // validate the extension data
+            validate(
+                extension_type,
+                extension_data.as_mut_slice(),
+                if update {
+                    Some(&mut account_data[start..start + current_length])
+                } else {
+                    None
+                },
+                ctx.accounts.authority.key(),
+            )?;
 
-                (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
-            };
+            let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
             msg!("Updating extension from instruction data");
-- 
2.43.0


From a6a0c4bd8a5795647c8ba5998af9d3594f2f9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 04/29] fix: reject an update of extension type None

---
 programs/asset/program/src/processor/update.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index debac7b..2a83d69 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -151,6 +151,14 @@ pub fn process_update(
             return Err(ProgramError::InvalidInstructionData);
         };
 
+        // the spare capacity of an account is not an extension
+        require!(
+            extension_type != ExtensionType::None,
+            AssetError::ExtensionDataInvalid,
+            "invalid extension type: {:?}",
+            extension_type
+        );
+
         let mut offset = Asset::LEN;
         // extension details:
         //   - current length
-- 
2.43.0


From ae29ac37bd66dd91dbdcd929052e167487f6a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 05/29] fix: do not depend on the alignment of instruction data
 in update

---
 programs/asset/program/src/processor/update.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 2a83d69..8cd6e50 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -231,10 +231,16 @@ pub fn process_update(
             // extension might not have any data
             let mut extension_data = args.data.unwrap_or_default();
             let start = offset + Extension::LEN;
+            // instruction data has no alignment guarantee, so the validation is done
+            // on a copy with the same alignment as the account data
+            let mut aligned = vec![0u64; (extension_data.len() + 7) / 8];
+            let aligned_data =
+                &mut bytemuck::cast_slice_mut::<u64, u8>(&mut aligned)[..extension_data.len()];
+            aligned_data.copy_from_slice(&extension_data);
             // validate the extension data
             validate(
                 extension_type,
-                extension_data.as_mut_slice(),
+                aligned_data,
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
@@ -243,6 +249,8 @@ pub fn process_update(
                 ctx.accounts.authority.key(),
             )?;
 
+            extension_data.copy_from_slice(aligned_data);
+
             let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From 9b07edba42384cf91794c3945528103c96344822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 06/29] fix: remove an extension without data at the end of an
 asset

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..14167b8 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,7 +71,7 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
-- 
2.43.0


From ce736d51e1885c53a7753a9e33f159fd41231787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 07/29] fix: reject the removal of extension type None

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 14167b8..c7c8046 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -89,7 +89,7 @@ pub fn process_remove(
     let boundary = boundary.ok_or(AssetError::ExtensionNotFound)?;
 
     match extension_type {
-        ExtensionType::Manager | ExtensionType::Proxy => {
+        ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy => {
             return err!(
                 AssetError::ExtensionDataInvalid,
                 "invalid extension type: {:?}",
-- 
2.43.0


From 609b4056eb32b1c7826935d6b0b545b403e4d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 08/29] fix: update the boundaries of the remaining extensions
 on remove

---
 .../asset/program/src/processor/remove.rs     | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index c7c8046..fc02ec7 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -126,6 +126,29 @@ pub fn process_remove(
     }
 
     let bytes_to_remove = boundary.saturating_sub(offset);
+
+    // updates the boundaries of the extensions that were moved
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+    let end = account_data.len().saturating_sub(bytes_to_remove);
+    let mut cursor = offset;
+
+    while cursor + Extension::LEN <= end {
+        let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+        // the remaining bytes are spare capacity
+        if let Ok(ExtensionType::None) = extension.try_extension_type() {
+            break;
+        }
+
+        let boundary = extension
+            .boundary()
+            .saturating_sub(bytes_to_remove as u32);
+        extension.set_boundary(boundary);
+        cursor = boundary as usize;
+    }
+
+    drop(account_data);
+
     resize(
         ctx.accounts
             .asset
-- 
2.43.0


From 306cd53ccc3f82242148a3683c698be823674efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 09/29] fix: creator shares wrap around when adding up the
 total

---
 programs/asset/types/src/extensions/creators.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..236c85c 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -67,7 +67,7 @@ impl<'a> ExtensionDataMut<'a> for CreatorsMut<'a> {
 impl Lifecycle for CreatorsMut<'_> {
     /// Validates the creators' share added up to `100`.
     fn on_create(&mut self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
 
         self.creators.iter_mut().for_each(|creator| {
             // creators are always initialized as unverified, unless it matches
@@ -77,7 +77,7 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != TOTAL_SHARE {
@@ -88,7 +88,7 @@ impl Lifecycle for CreatorsMut<'_> {
     }
 
     fn on_update(&mut self, other: &mut Self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
         other.creators.iter_mut().for_each(|creator| {
             if let Some(original) = self.get(&creator.address) {
                 // creators maintain their verified status
@@ -102,7 +102,7 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != 100 {
-- 
2.43.0


From ab117886ed361e7a7a3da6d74d19cbf061c2a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 10/29] fix: the owner's delegate can act on an asset that has
 a manager

---
 programs/asset/program/src/utils.rs | 50 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/programs/asset/program/src/utils.rs b/programs/asset/program/src/utils.rs
index f726f1c..f1ed337 100644
--- a/programs/asset/program/src/utils.rs
+++ b/programs/asset/program/src/utils.rs
@@ -26,36 +26,42 @@ pub fn close_program_account(account: &AccountInfo, recipient: &AccountInfo) ->
     Ok(())
 }
 
-#[allow(clippy::manual_try_fold)]
 #[inline(always)]
 pub fn assert_delegate(
     delegates: &[Option<&Delegate>],
     target: &Pubkey,
     role: DelegateRole,
 ) -> ProgramResult {
-    delegates.iter().fold(
-        Err(AssetError::DelegateNotFound.into()),
-        |result, delegate| {
-            if let Some(delegate) = delegate {
-                require!(
-                    *delegate.address == *target,
-                    AssetError::InvalidDelegate,
-                    "invalid delegate"
-                );
+    let mut result = Err(AssetError::DelegateNotFound.into());
 
-                require!(
-                    delegate.is_active(role),
-                    AssetError::DelegateRoleNotActive,
-                    "missing \"{:?}\" role",
-                    role
-                );
+    // it is enough that one of the delegates is active for the role
+    for delegate in delegates.iter().flatten() {
+        result = assert_delegate_role(delegate, target, role);
 
-                Ok(())
-            } else {
-                result
-            }
-        },
-    )
+        if result.is_ok() {
+            break;
+        }
+    }
+
+    result
+}
+
+#[inline(always)]
+fn assert_delegate_role(delegate: &Delegate, target: &Pubkey, role: DelegateRole) -> ProgramResult {
+    require!(
+        *delegate.address == *target,
+        AssetError::InvalidDelegate,
+        "invalid delegate"
+    );
+
+    require!(
+        delegate.is_active(role),
+        AssetError::DelegateRoleNotActive,
+        "missing \"{:?}\" role",
+        role
+    );
+
+    Ok(())
 }
 
 #[macro_export]
-- 
2.43.0


From 057d95538e2decfa42eb29a4a2ba2e007a9f1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 11/29] fix: reject the allocation of extension type None

---
 programs/asset/program/src/processor/allocate.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/allocate.rs b/programs/asset/program/src/processor/allocate.rs
index fdc4e71..caa3e06 100644
--- a/programs/asset/program/src/processor/allocate.rs
+++ b/programs/asset/program/src/processor/allocate.rs
@@ -1,5 +1,5 @@
 use nifty_asset_types::{
-    extensions::Extension,
+    extensions::{Extension, ExtensionType},
     podded::ZeroCopy,
     state::{Asset, Discriminator},
 };
@@ -40,6 +40,13 @@ pub fn process_allocate(
         "asset"
     );
 
+    require!(
+        args.extension.extension_type != ExtensionType::None,
+        AssetError::ExtensionDataInvalid,
+        "invalid extension type: {:?}",
+        args.extension.extension_type
+    );
+
     // offset on the account data where the new extension will be written; this will
     // include any padding required to maintain the 8-bytes alignment
     let (exists, offset) = if ctx.accounts.asset.data_is_empty() {
-- 
2.43.0


From 3b1e094b0df69d3d2135f4ccb47a2f4e89173d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 12/29] fix: pad the account when overwriting completes the
 extension data

---
 programs/asset/program/src/processor/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..8895e97 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -90,8 +90,14 @@ pub(crate) fn process_write(
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
 
+        let mut extended = offset.saturating_add(data.bytes.len());
+
+        if extended == expected {
+            extended = boundary as usize;
+        }
+
         resize(
-            offset.saturating_add(data.bytes.len()),
+            extended,
             ctx.accounts.asset,
             Some(ctx.accounts.payer),
             Some(ctx.accounts.system_program),
-- 
2.43.0


From 5a8686014db770319068b8bf26f6e5f797f94649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 13/29] fix: reject writing more data than the extension length

---
 programs/asset/program/src/processor/write.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 8895e97..0bc092f 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -84,6 +84,17 @@ pub(crate) fn process_write(
         return err!(AssetError::InvalidAccountLength);
     }
 
+    // the data being written must fit in the extension
+    let start = if data.overwrite {
+        offset
+    } else {
+        asset_data.len()
+    };
+
+    if start.saturating_add(data.bytes.len()) > expected {
+        return err!(AssetError::ExtensionLengthInvalid);
+    }
+
     drop(asset_data);
 
     let offset = if data.overwrite {
-- 
2.43.0


From dfb65233fd2bc545c5013485a9f9703dd5deb9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 14/29] fix: extension type of the mutable proxy extension

---
 programs/asset/types/src/extensions/proxy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/proxy.rs b/programs/asset/types/src/extensions/proxy.rs
index abef803..0c46abd 100644
--- a/programs/asset/types/src/extensions/proxy.rs
+++ b/programs/asset/types/src/extensions/proxy.rs
@@ -82,7 +82,7 @@ pub struct ProxyMut<'a> {
 }
 
 impl<'a> ExtensionDataMut<'a> for ProxyMut<'a> {
-    const TYPE: ExtensionType = ExtensionType::Manager;
+    const TYPE: ExtensionType = ExtensionType::Proxy;
 
     fn from_bytes_mut(bytes: &'a mut [u8]) -> Self {
         let (program, remainder) = bytes.split_at_mut(std::mem::size_of::<Pubkey>());
-- 
2.43.0


From 0323a5800267b4051dc7c92b3435ca8b0d1b9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 15/29] fix: serialization of the not constraint duplicates the
 operator header

---
 programs/asset/types/src/constraints/not.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/programs/asset/types/src/constraints/not.rs b/programs/asset/types/src/constraints/not.rs
index 126546f..96fabb9 100644
--- a/programs/asset/types/src/constraints/not.rs
+++ b/programs/asset/types/src/constraints/not.rs
@@ -29,10 +29,7 @@ impl Assertable for Not<'_> {
     }
 
     fn as_bytes(&self) -> Vec<u8> {
-        let mut bytes = Vec::with_capacity(self.constraint.size());
-        bytes.extend_from_slice(bytemuck::bytes_of(self.constraint.operator));
-        bytes.extend_from_slice(self.constraint.as_bytes().as_ref());
-        bytes
+        self.constraint.as_bytes()
     }
 }
 
-- 
2.43.0


From cdfcfb6b5e76a23bbf84bb0099dfedbd0bc22f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 16/29] fix: forward the resize instruction through the
 interface

---
 programs/asset/interface/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 386a8b6..5f84013 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -78,6 +78,7 @@ macro_rules! log_instruction_name {
             14 => "Ungroup",
             15 => "Handover",
             16 => "Remove",
+            17 => "Resize",
             _ => return Err(solana_program::program_error::ProgramError::InvalidInstructionData),
         };
 
-- 
2.43.0


From a8d5cfbead3c3d968ef0297803be9dc6f7828141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 17/29] fix: reject constraints on an account that does not
 exist

---
 programs/asset/types/src/constraints/mod.rs         | 13 +++++++++++++
 programs/asset/types/src/constraints/owned_by.rs    |  3 +--
 .../asset/types/src/constraints/pubkey_match.rs     |  3 +--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/programs/asset/types/src/constraints/mod.rs b/programs/asset/types/src/constraints/mod.rs
index 5caa944..fe17463 100644
--- a/programs/asset/types/src/constraints/mod.rs
+++ b/programs/asset/types/src/constraints/mod.rs
@@ -65,6 +65,19 @@ impl Account {
     pub fn into_bytes(self) -> [u8; 8] {
         (self as u64).to_le_bytes()
     }
+
+    /// Loads the account from its bytes representation.
+    ///
+    /// Panics if the bytes do not represent a valid account.
+    fn from_bytes(bytes: &[u8]) -> &Self {
+        let value: &u64 = bytemuck::from_bytes(bytes);
+
+        if *value > Account::Recipient as u64 {
+            panic!("invalid account value: {value}");
+        }
+
+        Account::load(bytes)
+    }
 }
 
 impl From<&str> for Account {
diff --git a/programs/asset/types/src/constraints/owned_by.rs b/programs/asset/types/src/constraints/owned_by.rs
index d4f5348..8482dc9 100644
--- a/programs/asset/types/src/constraints/owned_by.rs
+++ b/programs/asset/types/src/constraints/owned_by.rs
@@ -1,6 +1,5 @@
 use std::{mem::size_of, ops::Deref};
 
-use podded::ZeroCopy;
 use solana_program::pubkey::Pubkey;
 
 use crate::{
@@ -22,7 +21,7 @@ pub struct OwnedBy<'a> {
 impl<'a> FromBytes<'a> for OwnedBy<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         let (account, owners) = bytes.split_at(size_of::<Account>());
-        let account = Account::load(account);
+        let account = Account::from_bytes(account);
         let owners = bytemuck::cast_slice(owners);
         Self { account, owners }
     }
diff --git a/programs/asset/types/src/constraints/pubkey_match.rs b/programs/asset/types/src/constraints/pubkey_match.rs
index 0841a51..11ade63 100644
--- a/programs/asset/types/src/constraints/pubkey_match.rs
+++ b/programs/asset/types/src/constraints/pubkey_match.rs
@@ -1,6 +1,5 @@
 use std::{mem::size_of, ops::Deref};
 
-use podded::ZeroCopy;
 use solana_program::pubkey::Pubkey;
 
 use crate::{
@@ -22,7 +21,7 @@ pub struct PubkeyMatch<'a> {
 impl<'a> FromBytes<'a> for PubkeyMatch<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         let (account, pubkeys) = bytes.split_at(size_of::<Account>());
-        let account = Account::load(account);
+        let account = Account::from_bytes(account);
         let pubkeys = bytemuck::cast_slice(pubkeys);
         Self { account, pubkeys }
     }
-- 
2.43.0


From d838fcc971ddb02c52b026ba7545ee4cd5aae2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 18/29] fix: typed lookup of a property with a different type

---
 .../asset/types/src/extensions/properties.rs  | 42 +++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/programs/asset/types/src/extensions/properties.rs b/programs/asset/types/src/extensions/properties.rs
index 3d52fcc..8e8cdb2 100644
--- a/programs/asset/types/src/extensions/properties.rs
+++ b/programs/asset/types/src/extensions/properties.rs
@@ -19,12 +19,14 @@ pub struct Properties<'a> {
 impl Properties<'_> {
     /// Get the value of a property by name.
     ///
-    /// If no value is found under the `name`, returns `None`.
+    /// If no value is found under the `name` or the value has a different type,
+    /// returns `None`.
     pub fn get<T: Value>(&self, name: &str) -> Option<&T> {
         if let Some(pointer) = self
             .values
             .iter()
             .find(|t| t.name.as_str() == name)
+            .filter(|p| p.value.is_type(T::value_type()))
             .map(|p| &*p.value as *const dyn Value as *const T)
         {
             unsafe { pointer.as_ref() }
@@ -78,12 +80,14 @@ pub struct PropertiesMut<'a> {
 impl PropertiesMut<'_> {
     /// Get the value of a property by name.
     ///
-    /// If no value is found under the `name`, returns `None`.
+    /// If no value is found under the `name` or the value has a different type,
+    /// returns `None`.
     pub fn get<T: Value>(&self, name: &str) -> Option<&T> {
         if let Some(pointer) = self
             .values
             .iter()
             .find(|t| t.name.as_str() == name)
+            .filter(|p| p.value.is_type(T::value_type()))
             .map(|p| &*p.value as *const dyn Value as *const T)
         {
             unsafe { pointer.as_ref() }
@@ -161,6 +165,14 @@ impl Debug for Property<'_> {
 
 /// Trait representing a value in a property.
 pub trait Value: Debug {
+    /// Type of the value.
+    fn value_type() -> Type
+    where
+        Self: Sized;
+
+    /// Indicates whether the value is of the given type.
+    fn is_type(&self, value_type: Type) -> bool;
+
     fn size(&self) -> usize;
 }
 
@@ -168,7 +180,7 @@ pub trait Value: Debug {
 ///
 /// This is used to "encode" the type on the serialized data.
 #[repr(u8)]
-#[derive(Clone, Copy)]
+#[derive(Clone, Copy, PartialEq)]
 pub enum Type {
     Text,
     Number,
@@ -216,6 +228,14 @@ impl<'a> Text<'a> {
 }
 
 impl Value for Text<'_> {
+    fn value_type() -> Type {
+        Type::Text
+    }
+
+    fn is_type(&self, value_type: Type) -> bool {
+        value_type == Type::Text
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + self.value.size()
     }
@@ -250,6 +270,14 @@ impl<'a> Number<'a> {
 }
 
 impl Value for Number<'_> {
+    fn value_type() -> Type {
+        Type::Number
+    }
+
+    fn is_type(&self, value_type: Type) -> bool {
+        value_type == Type::Number
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + std::mem::size_of_val(self.value)
     }
@@ -283,6 +311,14 @@ impl<'a> Boolean<'a> {
 }
 
 impl Value for Boolean<'_> {
+    fn value_type() -> Type {
+        Type::Boolean
+    }
+
+    fn is_type(&self, value_type: Type) -> bool {
+        value_type == Type::Boolean
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + std::mem::size_of_val(self.value)
     }
-- 
2.43.0


From 1c7feaf30599c9f32325a16c80f196d1a2c50023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:43 +0000
Subject: [PATCH 19/29] fix: creators builder overwrites earlier creators after
 255 entries

The builder located each new creator with an 8-bit counter, which wraps
at 256 (and is stale once the data has been taken), so later creators
were written over earlier ones. Append at the end of the data instead.
---
 programs/asset/types/src/extensions/creators.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index 236c85c..f663bd9 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -159,9 +159,6 @@ impl ZeroCopy<'_, Creator> for Creator {}
 /// Builder for a `Creators` extension.
 #[derive(Default)]
 pub struct CreatorsBuilder {
-    /// The current number of creators.
-    count: u8,
-
     /// The extension data.
     data: Vec<u8>,
 }
@@ -169,16 +166,12 @@ pub struct CreatorsBuilder {
 impl CreatorsBuilder {
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
-            count: 0,
             data: Vec::with_capacity(capacity),
         }
     }
 
     pub fn with_buffer(buffer: Vec<u8>) -> Self {
-        let mut s = Self {
-            count: 0,
-            data: buffer,
-        };
+        let mut s = Self { data: buffer };
         s.data.clear();
         s
     }
@@ -186,17 +179,15 @@ impl CreatorsBuilder {
     /// Add a new creator to the extension.
     pub fn add(&mut self, addresss: &Pubkey, verified: bool, share: u8) -> &mut Self {
         // extends the data buffer
+        let offset = self.data.len();
         self.data
             .append(&mut vec![0u8; std::mem::size_of::<Creator>()]);
-        let offset = self.count as usize * std::mem::size_of::<Creator>();
 
         let creator = Creator::load_mut(&mut self.data[offset..]);
         creator.address = *addresss;
         creator.verified = verified.into();
         creator.share = share;
 
-        self.count += 1;
-
         self
     }
 }
-- 
2.43.0


From 63b63ef1255f680002d0dc825230ff79327d82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:26 +0000
Subject: [PATCH 20/29] fix: a proxied asset acts as its own authority for
 anyone

The proxy signs for the asset and the asset is its own authority, so anyone
could pass the asset as authority too and, for example, change the manager or
remove extensions. Naming the asset a second time now needs the proxy
authority's signature.
---
 programs/proxy/src/processor/mod.rs | 30 ++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/programs/proxy/src/processor/mod.rs b/programs/proxy/src/processor/mod.rs
index 870c429..1f84fdf 100644
--- a/programs/proxy/src/processor/mod.rs
+++ b/programs/proxy/src/processor/mod.rs
@@ -5,11 +5,17 @@ mod update;
 use borsh::BorshDeserialize;
 use nifty_asset_interface::{
     accounts::{TransferAccounts, UpdateAccounts},
-    Interface,
+    fetch_proxy_data, Interface,
+};
+use solana_program::{
+    account_info::AccountInfo, entrypoint::ProgramResult, msg, program_error::ProgramError,
+    pubkey::Pubkey,
 };
-use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, msg, pubkey::Pubkey};
 
-use crate::instruction::{accounts::CreateAccounts, Instruction};
+use crate::{
+    instruction::{accounts::CreateAccounts, Instruction},
+    require,
+};
 
 const IMAGE: &str = include_str!("../image.svg");
 
@@ -56,6 +62,24 @@ pub fn process_instruction<'a>(
         }
     }
 
+    // the asset signs the CPI and it is its own authority, therefore using it as any
+    // other account of the instruction requires the "proxy" authority to be a signer
+
+    if let Some((asset, others)) = accounts.split_first() {
+        if others.iter().any(|account| account.key == asset.key) {
+            let data = (*asset.data).borrow();
+            fetch_proxy_data!(&data, _signer, authority);
+
+            require!(
+                authority.map_or(false, |authority| others
+                    .iter()
+                    .any(|account| account.is_signer && *account.key == *authority)),
+                ProgramError::MissingRequiredSignature,
+                "authority"
+            );
+        }
+    }
+
     Interface::process_instruction(&crate::ID, accounts, instruction_data)
 }
 
-- 
2.43.0


From 1cdbf0b866b2c687e03e05b8194f193aee563d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:26 +0000
Subject: [PATCH 21/29] fix: a damaged embedded IDL panics the parser

Sections pointing outside the binary, corrupt data and unknown IDL types are
reported as errors like a missing IDL is.
---
 include-idl/src/parse.rs | 41 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/include-idl/src/parse.rs b/include-idl/src/parse.rs
index 3c5889d..3ff809b 100644
--- a/include-idl/src/parse.rs
+++ b/include-idl/src/parse.rs
@@ -70,20 +70,19 @@ pub fn parse_idl_from_program_binary(buffer: &[u8]) -> goblin::error::Result<(Id
 
         match name {
             IDL_DATA_SECTION => {
-                let (location, size) = get_section_data_offset(buffer, sh.sh_offset as usize);
-
-                let slice = &buffer[location..location + size];
+                let slice = get_section_data(buffer, sh.sh_offset as usize)?;
                 let mut compressed_data = ZlibDecoder::new(slice);
                 let mut data = Vec::new();
-                compressed_data.read_to_end(&mut data).unwrap();
+                compressed_data.read_to_end(&mut data)?;
 
-                idl_json = Some(serde_json::from_slice(&data).unwrap());
+                idl_json = Some(serde_json::from_slice(&data).map_err(malformed)?);
             }
             IDL_TYPE_SECTION => {
-                let (location, size) = get_section_data_offset(buffer, sh.sh_offset as usize);
-                let slice = &buffer[location..location + size];
+                let slice = get_section_data(buffer, sh.sh_offset as usize)?;
 
-                idl_type = Some(IdlType::from_str(from_utf8(slice).unwrap()).unwrap());
+                idl_type = Some(
+                    IdlType::from_str(from_utf8(slice).map_err(malformed)?).map_err(malformed)?,
+                );
             }
             // Ignore other sections.
             _ => (),
@@ -101,15 +100,27 @@ pub fn parse_idl_from_program_binary(buffer: &[u8]) -> goblin::error::Result<(Id
     }
 }
 
-/// Retrieves the location and size of an ELF section data.
+/// Retrieves the data referenced by an ELF section.
 #[cfg(feature = "parse")]
 #[inline(always)]
-fn get_section_data_offset(buffer: &[u8], offset: usize) -> (usize, usize) {
-    let slice = &buffer[offset + 4..offset + 8];
-    let location = u32::from_le_bytes(slice.try_into().unwrap());
+fn get_section_data(buffer: &[u8], offset: usize) -> goblin::error::Result<&[u8]> {
+    let header = get_slice(buffer, offset, 16)?;
+    let location = u32::from_le_bytes(header[4..8].try_into().unwrap());
+    let size = u64::from_le_bytes(header[8..16].try_into().unwrap());
+
+    get_slice(buffer, location as usize, size as usize)
+}
 
-    let slice = &buffer[offset + 8..offset + 16];
-    let size = u64::from_le_bytes(slice.try_into().unwrap());
+/// Retrieves `size` bytes at `offset`, or an error if these are not in the buffer.
+#[cfg(feature = "parse")]
+fn get_slice(buffer: &[u8], offset: usize, size: usize) -> goblin::error::Result<&[u8]> {
+    offset
+        .checked_add(size)
+        .and_then(|end| buffer.get(offset..end))
+        .ok_or_else(|| malformed("IDL section data is out of bounds"))
+}
 
-    (location as usize, size as usize)
+#[cfg(feature = "parse")]
+fn malformed<E: ToString>(error: E) -> goblin::error::Error {
+    goblin::error::Error::Malformed(error.to_string())
 }
-- 
2.43.0


From add73afe56d296d3a55e641699481d921c6b96ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 22/29] fix: JS client serializes the None delegate role as an
 empty mask

---
 clients/js/asset/src/hooked/delegateRoles.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/delegateRoles.ts b/clients/js/asset/src/hooked/delegateRoles.ts
index 3d5f4c5..aeb9b5d 100644
--- a/clients/js/asset/src/hooked/delegateRoles.ts
+++ b/clients/js/asset/src/hooked/delegateRoles.ts
@@ -17,7 +17,9 @@ export function getDelegateRolesSerializer(): Serializer<
   return mapSerializer(
     u8(),
     (delegateRoles) =>
-      delegateRoles.map((role) => 1 << (role - 1)).reduce((a, b) => a | b, 0),
+      delegateRoles
+        .map((role) => (role === DelegateRole.None ? 0 : 1 << (role - 1)))
+        .reduce((a, b) => a | b, 0),
     (rolesMask) => {
       if (rolesMask === 0) {
         return [DelegateRole.None];
-- 
2.43.0


From ab9f254690ff5c820e0027bdd356f6c8c1a8bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 23/29] fix: JS client decodes assets with less spare space
 than an extension header

---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index bec5559..fc5ea46 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -13,6 +13,9 @@ import {
 } from '../generated/types/internalAssetAccountData';
 import { getExtensionHeaderSerializer } from '../generated/types/extensionHeader';
 
+// Size of an extension header in bytes.
+const EXTENSION_HEADER_SIZE = 16;
+
 export type InternalAssetAccountData = Omit<
   BaseInternalAssetAccountData,
   'delegate'
@@ -55,8 +58,8 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
     let finalOffset = assetOffset;
     const extensions: TypedExtension[] = [];
 
-    // Extensions.
-    while (finalOffset < buffer.length) {
+    // Extensions. Space too small for a header does not hold an extension.
+    while (finalOffset + EXTENSION_HEADER_SIZE <= buffer.length) {
       const [header, headerOffset] = getExtensionHeaderSerializer().deserialize(
         buffer,
         finalOffset
-- 
2.43.0


From 15954192a6e9d4adbdd7d0d3c54ecbe6b948e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 24/29] fix: JS client decodes metadata and grouping extensions
 without their newer fields

---
 .../src/hooked/internalAssetAccountData.ts    | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index fc5ea46..48874ac 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -16,6 +16,9 @@ import { getExtensionHeaderSerializer } from '../generated/types/extensionHeader
 // Size of an extension header in bytes.
 const EXTENSION_HEADER_SIZE = 16;
 
+// Size of the largest field missing from extensions created before it was added.
+const LEGACY_PADDING = 32;
+
 export type InternalAssetAccountData = Omit<
   BaseInternalAssetAccountData,
   'delegate'
@@ -69,16 +72,20 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
       if (type === ExtensionType.None) {
         break;
       } else if (ExtensionType[type]) {
-        let endOffset = headerOffset + header.length;
-        if (type === ExtensionType.Metadata) {
-          // backwards compatibility for metadata extension: there is now an 'imageUrl'
-          // on the extension, so we use the extra padding to simulate having it for
-          // assets created before the change.
-          endOffset = header.boundary;
+        let data = buffer.subarray(headerOffset, headerOffset + header.length);
+        if (
+          type === ExtensionType.Metadata ||
+          type === ExtensionType.Grouping
+        ) {
+          // backwards compatibility for metadata and grouping extensions: there is now
+          // an 'imageUri' (metadata) and a 'delegate' (grouping) on the extension, so we
+          // pad the data to simulate having them for assets created before the change.
+          const padded = new Uint8Array(data.length + LEGACY_PADDING);
+          padded.set(data);
+          data = padded;
         }
-        const [extension] = getExtensionSerializerFromType(type).deserialize(
-          buffer.subarray(headerOffset, endOffset)
-        );
+        const [extension] =
+          getExtensionSerializerFromType(type).deserialize(data);
         extensions.push({ ...extension, type } as TypedExtension);
       }
 
-- 
2.43.0


From 79c6eb6a05ba797dc50c0445b20e39dd06fe8f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 25/29] fix: JS client sends the buffer instructions of a
 proxied update to the asset program

---
 clients/js/asset/src/updateWithBuffer.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index d78ceee..688901c 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -32,16 +32,18 @@ export function updateWithBuffer(
   );
   const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
 
+  // Only the update goes through the proxy: the buffer belongs to the asset program.
+  let updateContext = context;
   if (input.proxy) {
     const proxied = context.programs.clone();
     proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
+    updateContext = { ...context, programs: proxied };
   }
 
   if (chunked) {
     const buffer = generateSigner(context);
 
-    let updateIx = update(context, {
+    let updateIx = update(updateContext, {
       ...input,
       buffer: buffer.publicKey,
       systemProgram: SYSTEM_PROGRAM_ID,
@@ -81,7 +83,7 @@ export function updateWithBuffer(
       );
   }
 
-  let updateIx = update(context, {
+  let updateIx = update(updateContext, {
     ...input,
     extension: {
       extensionType: input.extension.type,
-- 
2.43.0


From b9e1857f75a8c8802de6f4a7d51ffccadc30e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 26/29] fix: JS client leaves accounts omitted through a proxy
 to the asset program's address

---
 clients/js/asset/src/approve.ts          | 20 +++--------------
 clients/js/asset/src/burn.ts             | 20 +++--------------
 clients/js/asset/src/group.ts            | 20 +++--------------
 clients/js/asset/src/handover.ts         | 20 +++--------------
 clients/js/asset/src/lock.ts             | 20 +++--------------
 clients/js/asset/src/proxy.ts            | 25 +++++++++++++++++++++
 clients/js/asset/src/remove.ts           | 20 +++--------------
 clients/js/asset/src/resize.ts           | 20 +++--------------
 clients/js/asset/src/revoke.ts           | 20 +++--------------
 clients/js/asset/src/transfer.ts         | 20 +++--------------
 clients/js/asset/src/ungroup.ts          | 20 +++--------------
 clients/js/asset/src/unlock.ts           | 20 +++--------------
 clients/js/asset/src/unverify.ts         | 20 +++--------------
 clients/js/asset/src/update.ts           | 21 ++++--------------
 clients/js/asset/src/updateWithBuffer.ts | 28 ++++++------------------
 clients/js/asset/src/verify.ts           | 20 +++--------------
 16 files changed, 75 insertions(+), 259 deletions(-)
 create mode 100644 clients/js/asset/src/proxy.ts

diff --git a/clients/js/asset/src/approve.ts b/clients/js/asset/src/approve.ts
index 8e12ef6..0510530 100644
--- a/clients/js/asset/src/approve.ts
+++ b/clients/js/asset/src/approve.ts
@@ -3,33 +3,19 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   ApproveInstructionAccounts,
   ApproveInstructionArgs,
   approve as baseApprove,
 } from './generated/instructions/approve';
+import { throughProxy } from './proxy';
 
 export function approve(
   context: Pick<Context, 'identity' | 'programs'>,
   input: ApproveInstructionAccounts &
     ApproveInstructionArgs & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseApprove(context, input);
 
-  let ix = baseApprove(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/burn.ts b/clients/js/asset/src/burn.ts
index 553d280..39041ee 100644
--- a/clients/js/asset/src/burn.ts
+++ b/clients/js/asset/src/burn.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   BurnInstructionAccounts,
   burn as baseBurn,
 } from './generated/instructions/burn';
+import { throughProxy } from './proxy';
 
 export function burn(
   context: Pick<Context, 'programs'>,
   input: BurnInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseBurn(context, input);
 
-  let ix = baseBurn(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/group.ts b/clients/js/asset/src/group.ts
index c0ed20a..49be0c5 100644
--- a/clients/js/asset/src/group.ts
+++ b/clients/js/asset/src/group.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   GroupInstructionAccounts,
   group as baseGroup,
 } from './generated/instructions/group';
+import { throughProxy } from './proxy';
 
 export function group(
   context: Pick<Context, 'identity' | 'programs'>,
   input: GroupInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseGroup(context, input);
 
-  let ix = baseGroup(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/handover.ts b/clients/js/asset/src/handover.ts
index 9dbe563..1d3dc8b 100644
--- a/clients/js/asset/src/handover.ts
+++ b/clients/js/asset/src/handover.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   HandoverInstructionAccounts,
   handover as baseHandover,
 } from './generated/instructions/handover';
+import { throughProxy } from './proxy';
 
 export function handover(
   context: Pick<Context, 'identity' | 'programs'>,
   input: HandoverInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseHandover(context, input);
 
-  let ix = baseHandover(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/lock.ts b/clients/js/asset/src/lock.ts
index 41cdd36..f02b5af 100644
--- a/clients/js/asset/src/lock.ts
+++ b/clients/js/asset/src/lock.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   LockInstructionAccounts,
   lock as baseLock,
 } from './generated/instructions/lock';
+import { throughProxy } from './proxy';
 
 export function lock(
   context: Pick<Context, 'identity' | 'programs'>,
   input: LockInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseLock(context, input);
 
-  let ix = baseLock(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/proxy.ts b/clients/js/asset/src/proxy.ts
new file mode 100644
index 0000000..46844aa
--- /dev/null
+++ b/clients/js/asset/src/proxy.ts
@@ -0,0 +1,25 @@
+import { PublicKey, TransactionBuilder } from '@metaplex-foundation/umi';
+import { ASSET_PROGRAM_ID } from './generated';
+
+/**
+ * Redirects instructions of the asset program through a proxy.
+ *
+ * Only the program invoked changes: the proxy forwards the accounts to the asset
+ * program, which is passed last, and a missing optional account is represented
+ * by the address of the asset program on both sides.
+ */
+export function throughProxy(
+  builder: TransactionBuilder,
+  proxy: PublicKey
+): TransactionBuilder {
+  return builder
+    .mapInstructions((item) => ({
+      ...item,
+      instruction: { ...item.instruction, programId: proxy },
+    }))
+    .addRemainingAccounts({
+      pubkey: ASSET_PROGRAM_ID,
+      isWritable: false,
+      isSigner: false,
+    });
+}
diff --git a/clients/js/asset/src/remove.ts b/clients/js/asset/src/remove.ts
index 0b3e2b4..1bf08c1 100644
--- a/clients/js/asset/src/remove.ts
+++ b/clients/js/asset/src/remove.ts
@@ -3,33 +3,19 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   RemoveInstructionAccounts,
   RemoveInstructionArgs,
   remove as baseRemove,
 } from './generated/instructions/remove';
+import { throughProxy } from './proxy';
 
 export function remove(
   context: Pick<Context, 'identity' | 'programs'>,
   input: RemoveInstructionAccounts &
     RemoveInstructionArgs & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseRemove(context, input);
 
-  let ix = baseRemove(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/resize.ts b/clients/js/asset/src/resize.ts
index 1b8a96b..db57a28 100644
--- a/clients/js/asset/src/resize.ts
+++ b/clients/js/asset/src/resize.ts
@@ -3,33 +3,19 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   resize as baseResize,
   ResizeInstructionAccounts,
   ResizeInstructionArgs,
 } from './generated/instructions/resize';
+import { throughProxy } from './proxy';
 
 export function resize(
   context: Pick<Context, 'programs' | 'identity' | 'payer'>,
   input: ResizeInstructionAccounts &
     ResizeInstructionArgs & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseResize(context, input);
 
-  let ix = baseResize(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/revoke.ts b/clients/js/asset/src/revoke.ts
index 23bcc55..5ade764 100644
--- a/clients/js/asset/src/revoke.ts
+++ b/clients/js/asset/src/revoke.ts
@@ -3,33 +3,19 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   RevokeInstructionAccounts,
   RevokeInstructionArgs,
   revoke as baseRevoke,
 } from './generated/instructions/revoke';
+import { throughProxy } from './proxy';
 
 export function revoke(
   context: Pick<Context, 'identity' | 'programs'>,
   input: RevokeInstructionAccounts &
     RevokeInstructionArgs & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseRevoke(context, input);
 
-  let ix = baseRevoke(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/transfer.ts b/clients/js/asset/src/transfer.ts
index c6098cd..e23b075 100644
--- a/clients/js/asset/src/transfer.ts
+++ b/clients/js/asset/src/transfer.ts
@@ -7,27 +7,13 @@ import {
   transfer as baseTransfer,
   TransferInstructionAccounts,
 } from './generated/instructions/transfer';
-import { ASSET_PROGRAM_ID } from './generated';
+import { throughProxy } from './proxy';
 
 export function transfer(
   context: Pick<Context, 'identity' | 'programs'>,
   input: TransferInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseTransfer(context, input);
 
-  let ix = baseTransfer(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/ungroup.ts b/clients/js/asset/src/ungroup.ts
index 07e4983..0aac7a3 100644
--- a/clients/js/asset/src/ungroup.ts
+++ b/clients/js/asset/src/ungroup.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   UngroupInstructionAccounts,
   ungroup as baseUngroup,
 } from './generated/instructions/ungroup';
+import { throughProxy } from './proxy';
 
 export function ungroup(
   context: Pick<Context, 'identity' | 'programs'>,
   input: UngroupInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseUngroup(context, input);
 
-  let ix = baseUngroup(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/unlock.ts b/clients/js/asset/src/unlock.ts
index 9e364ab..0b35d2f 100644
--- a/clients/js/asset/src/unlock.ts
+++ b/clients/js/asset/src/unlock.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   UnlockInstructionAccounts,
   unlock as baseUnlock,
 } from './generated/instructions/unlock';
+import { throughProxy } from './proxy';
 
 export function unlock(
   context: Pick<Context, 'identity' | 'programs'>,
   input: UnlockInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseUnlock(context, input);
 
-  let ix = baseUnlock(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/unverify.ts b/clients/js/asset/src/unverify.ts
index 42f9d9c..eb94a1c 100644
--- a/clients/js/asset/src/unverify.ts
+++ b/clients/js/asset/src/unverify.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   UnverifyInstructionAccounts,
   unverify as baseUnverify,
 } from './generated/instructions/unverify';
+import { throughProxy } from './proxy';
 
 export function unverify(
   context: Pick<Context, 'programs'>,
   input: UnverifyInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseUnverify(context, input);
 
-  let ix = baseUnverify(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/update.ts b/clients/js/asset/src/update.ts
index 771f7c5..3935605 100644
--- a/clients/js/asset/src/update.ts
+++ b/clients/js/asset/src/update.ts
@@ -6,12 +6,13 @@ import {
   none,
 } from '@metaplex-foundation/umi';
 import { TypedExtension, getExtensionSerializerFromType } from './extensions';
-import { ASSET_PROGRAM_ID, ExtensionInputArgs } from './generated';
+import { ExtensionInputArgs } from './generated';
 import {
   UpdateInstructionAccounts,
   UpdateInstructionArgs,
   update as baseUpdate,
 } from './generated/instructions/update';
+import { throughProxy } from './proxy';
 
 export function update(
   context: Pick<
@@ -36,24 +37,10 @@ export function update(
     };
   }
 
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
-
-  let ix = baseUpdate(context, {
+  const ix = baseUpdate(context, {
     ...input,
     extension,
   });
 
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index 688901c..e020707 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -6,7 +6,7 @@ import {
   none,
   transactionBuilderGroup,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID, SYSTEM_PROGRAM_ID, close } from '.';
+import { SYSTEM_PROGRAM_ID, close } from '.';
 import { TypedExtension, getExtensionSerializerFromType } from './extensions';
 import { allocate } from './generated/instructions/allocate';
 import {
@@ -14,6 +14,7 @@ import {
   UpdateInstructionArgs,
   update,
 } from './generated/instructions/update';
+import { throughProxy } from './proxy';
 import { DEFAULT_CHUNK_SIZE, write } from './write';
 
 export function updateWithBuffer(
@@ -32,30 +33,19 @@ export function updateWithBuffer(
   );
   const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
 
-  // Only the update goes through the proxy: the buffer belongs to the asset program.
-  let updateContext = context;
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    updateContext = { ...context, programs: proxied };
-  }
-
   if (chunked) {
     const buffer = generateSigner(context);
 
-    let updateIx = update(updateContext, {
+    let updateIx = update(context, {
       ...input,
       buffer: buffer.publicKey,
       systemProgram: SYSTEM_PROGRAM_ID,
       extension: none(),
     });
 
+    // Only the update goes through the proxy: the buffer belongs to the asset program.
     if (input.proxy) {
-      updateIx = updateIx.addRemainingAccounts({
-        pubkey: ASSET_PROGRAM_ID,
-        isWritable: false,
-        isSigner: false,
-      });
+      updateIx = throughProxy(updateIx, input.proxy);
     }
 
     return write(context, {
@@ -83,7 +73,7 @@ export function updateWithBuffer(
       );
   }
 
-  let updateIx = update(updateContext, {
+  let updateIx = update(context, {
     ...input,
     extension: {
       extensionType: input.extension.type,
@@ -93,11 +83,7 @@ export function updateWithBuffer(
   });
 
   if (input.proxy) {
-    updateIx = updateIx.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
+    updateIx = throughProxy(updateIx, input.proxy);
   }
 
   return transactionBuilderGroup([updateIx]);
diff --git a/clients/js/asset/src/verify.ts b/clients/js/asset/src/verify.ts
index bdd5709..e910e7c 100644
--- a/clients/js/asset/src/verify.ts
+++ b/clients/js/asset/src/verify.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   VerifyInstructionAccounts,
   verify as baseVerify,
 } from './generated/instructions/verify';
+import { throughProxy } from './proxy';
 
 export function verify(
   context: Pick<Context, 'programs'>,
   input: VerifyInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseVerify(context, input);
 
-  let ix = baseVerify(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? throughProxy(ix, input.proxy) : ix;
 }
-- 
2.43.0


From f5fc6b3ec35c2a157958de63823d9332c9a2c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 27/29] fix: reference proxy passes the group account on when
 transferring

---
 programs/proxy/src/processor/transfer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/proxy/src/processor/transfer.rs b/programs/proxy/src/processor/transfer.rs
index e040b2f..ce98a58 100644
--- a/programs/proxy/src/processor/transfer.rs
+++ b/programs/proxy/src/processor/transfer.rs
@@ -115,5 +115,6 @@ pub fn process_transfer<'a>(
         .asset(ctx.accounts.asset)
         .signer(ctx.accounts.signer)
         .recipient(ctx.accounts.recipient)
+        .group(ctx.accounts.group)
         .invoke_signed(&[&signer])
 }
-- 
2.43.0


From 64227bb4038deab78dd28a4219186457bdbe71b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:24 +0000
Subject: [PATCH 28/29] fix: JS updateWithBuffer uses a buffer when the update
 would not fit a transaction

---
 clients/js/asset/src/updateWithBuffer.ts | 34 +++++++++++++-----------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index e020707..f3fc4ea 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -31,7 +31,24 @@ export function updateWithBuffer(
   const data = getExtensionSerializerFromType(input.extension.type).serialize(
     input.extension
   );
-  const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
+
+  let directUpdateIx = update(context, {
+    ...input,
+    extension: {
+      extensionType: input.extension.type,
+      length: data.length,
+      data,
+    },
+  });
+
+  if (input.proxy) {
+    directUpdateIx = throughProxy(directUpdateIx, input.proxy);
+  }
+
+  // The other arguments and accounts of the update take space in the transaction too.
+  const chunked =
+    data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE) ||
+    !directUpdateIx.fitsInOneTransaction(context);
 
   if (chunked) {
     const buffer = generateSigner(context);
@@ -73,18 +90,5 @@ export function updateWithBuffer(
       );
   }
 
-  let updateIx = update(context, {
-    ...input,
-    extension: {
-      extensionType: input.extension.type,
-      length: data.length,
-      data,
-    },
-  });
-
-  if (input.proxy) {
-    updateIx = throughProxy(updateIx, input.proxy);
-  }
-
-  return transactionBuilderGroup([updateIx]);
+  return transactionBuilderGroup([directUpdateIx]);
 }
-- 
2.43.0


From 99cb627ca3bb1d5aba13a9f62b1a629ba8715d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:13 +0000
Subject: [PATCH 29/29] fix: JS default chunk size leaves room for a separate
 payer

---
 clients/js/asset/src/write.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clients/js/asset/src/write.ts b/clients/js/asset/src/write.ts
index 5e2df19..f78ae18 100644
--- a/clients/js/asset/src/write.ts
+++ b/clients/js/asset/src/write.ts
@@ -9,7 +9,7 @@ import {
 } from '@metaplex-foundation/umi';
 import { write as baseWrite } from './generated/instructions/write';
 
-export const DEFAULT_CHUNK_SIZE = 850;
+export const DEFAULT_CHUNK_SIZE = 800;
 
 export type WriteInstruction = {
   /** Address to derive the PDA from */
@@ -22,7 +22,7 @@ export type WriteInstruction = {
   data: Uint8Array;
   /**
    * The size of each chunk to write to the buffer.
-   * @default `850`
+   * @default `800`
    */
   chunkSize?: number;
 };
-- 
2.43.0

