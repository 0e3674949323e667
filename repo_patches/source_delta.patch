From bba1e4438fbe0961639cff1d4117b64a12e9bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 01/41] fix: promote the latest write of a slot when the slot
 gets confirmed or finalized

---
 .../src/account_data_by_commitment.rs           | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..d991980 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -199,7 +199,10 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if prev_account_data.updated_slot < account_data.updated_slot
+                            || (prev_account_data.updated_slot == account_data.updated_slot
+                                && prev_account_data.write_version < account_data.write_version)
+                        {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +219,11 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if confirmed_account.updated_slot < account_data.updated_slot
+                                || (confirmed_account.updated_slot == account_data.updated_slot
+                                    && confirmed_account.write_version
+                                        < account_data.write_version)
+                            {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +234,11 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if prev_account_data.updated_slot < account_data.updated_slot
+                                || (prev_account_data.updated_slot == account_data.updated_slot
+                                    && prev_account_data.write_version
+                                        < account_data.write_version)
+                            {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
-- 
2.43.0


From 15803f7d6b5e0b890fa7837b853686e735c9adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 02/41] fix: a filter store contains every filter that is at
 least as restrictive as a stored one

---
 common/src/simple_filter_store.rs | 60 +++++++++++++------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..cdc6f5c 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,8 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
+    account_filter::{
+        AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
+    },
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -23,6 +25,20 @@ pub struct SimpleFilterStore {
     program_id_filters: HashMap<Pubkey, ProgramIdFilters>,
 }
 
+// always save and compare filters in bytes
+fn filters_in_bytes(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+    filters
+        .iter()
+        .map(|filter| match filter {
+            AccountFilterType::Datasize(size) => AccountFilterType::Datasize(*size),
+            AccountFilterType::Memcmp(memcmp) => AccountFilterType::Memcmp(MemcmpFilter {
+                offset: memcmp.offset,
+                data: MemcmpFilterData::Bytes(memcmp.bytes()),
+            }),
+        })
+        .collect()
+}
+
 impl SimpleFilterStore {
     pub fn add_account_filters(&mut self, account_filters: &AccountFilters) {
         for filter in account_filters {
@@ -44,7 +60,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(filters_in_bytes(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -57,25 +73,9 @@ impl SimpleFilterStore {
                         *program_id,
                         account_filter
                             .filters
-                            .clone()
+                            .as_ref()
                             .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
-                                                })
-                                            },
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
+                                ProgramIdFilters::ByFilterType(vec![filters_in_bytes(filters)])
                             }),
                     );
                 }
@@ -100,21 +100,11 @@ impl SimpleFilterStore {
                         ProgramIdFilters::AllowAll => true,
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
-                                // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
-                                filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
-                                })
+                                // the filter is contained if it is at least as restrictive as a stored one
+                                let filter_to_match = filters_in_bytes(filter_to_match);
+                                filter_list
+                                    .iter()
+                                    .any(|stored_filters| stored_filters.is_subset(&filter_to_match))
                             } else {
                                 false
                             }
-- 
2.43.0


From 95672e2a16c841a16fa0f95335dcd4655c67131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 03/41] fix: an except filter store contains a filter only if
 none of its accounts can be excluded

---
 common/src/except_filter_store.rs |  3 ++-
 common/src/simple_filter_store.rs | 36 +++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index 9de0da8..68575e2 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -24,7 +24,8 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
     }
 
     fn contains_filter(&self, filter: &AccountFilter) -> bool {
-        !self.simple_filter_store.contains_filter_internal(filter)
+        // contained only if none of the accounts matching the filter can be excluded
+        !self.simple_filter_store.intersects_filter(filter)
     }
 }
 
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index cdc6f5c..2ba0b8c 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -120,6 +120,42 @@ impl SimpleFilterStore {
         accounts_match && program_filter_match
     }
 
+    // returns true if an account matching the filter may also match one of the stored filters
+    pub fn intersects_filter(&self, account_filter: &AccountFilter) -> bool {
+        let accounts_intersect = account_filter
+            .accounts
+            .iter()
+            .any(|pk| self.accounts.contains(pk));
+
+        let program_filter_intersect = if let Some(program_id) = &account_filter.program_id {
+            match self.program_id_filters.get(program_id) {
+                Some(ProgramIdFilters::AllowAll) => true,
+                Some(ProgramIdFilters::ByFilterType(filter_list)) => {
+                    match &account_filter.filters {
+                        // no account can have two different sizes
+                        Some(filters) => filter_list.iter().any(|stored_filters| {
+                            !stored_filters.iter().any(|stored_filter| {
+                                filters.iter().any(|filter| match (stored_filter, filter) {
+                                    (
+                                        AccountFilterType::Datasize(stored_size),
+                                        AccountFilterType::Datasize(size),
+                                    ) => stored_size != size,
+                                    _ => false,
+                                })
+                            })
+                        }),
+                        None => true,
+                    }
+                }
+                None => false,
+            }
+        } else {
+            false
+        };
+
+        accounts_intersect || program_filter_intersect
+    }
+
     pub fn satisfies_filter(&self, account: &AccountData) -> bool {
         if self.accounts.contains(&account.pubkey) {
             return true;
-- 
2.43.0


From 9170395873c0e96ee9120beffc5fffe59edcf951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 04/41] fix: remember a slot's parent once known and promote
 ancestors behind slots without account updates

A slot whose status already existed at the commitment never got its parent, an unseen
ancestor got the parent of another slot, an unseen slot ended the promotion of its
ancestors, and a late notification lowered the commitment of a slot.
---
 account_storage/src/inmemory_account_store.rs | 49 +++++++++++--------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..4a5c072 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -356,21 +356,25 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 current_slot = None;
                 match lk.get_mut(&slot) {
                     Some(status) => {
-                        if status.commitment == commitment {
-                            // slot already processed for the commitment
-                            break;
-                        }
-                        status.commitment = commitment;
+                        let is_parent_learned = parent.is_some() && status.parent.is_none();
                         if parent.is_some() {
                             status.parent = parent;
                         }
-                        for account in &status.accounts_updated {
-                            match writable_accounts.entry(*account) {
-                                std::collections::hash_map::Entry::Occupied(_) => {
-                                    // do nothing account has already been updated by higher slot
-                                }
-                                std::collections::hash_map::Entry::Vacant(vac) => {
-                                    vac.insert(slot);
+                        if status.commitment >= commitment {
+                            // slot already processed for the commitment
+                            if !is_parent_learned {
+                                break;
+                            }
+                        } else {
+                            status.commitment = commitment;
+                            for account in &status.accounts_updated {
+                                match writable_accounts.entry(*account) {
+                                    std::collections::hash_map::Entry::Occupied(_) => {
+                                        // do nothing account has already been updated by higher slot
+                                    }
+                                    std::collections::hash_map::Entry::Vacant(vac) => {
+                                        vac.insert(slot);
+                                    }
                                 }
                             }
                         }
@@ -393,18 +397,21 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         } else if commitment == Commitment::Finalized {
                             log::debug!("slot status not found for {} for commitment finalized, could be normal if the entry is already removed or during startup", slot,);
                         }
+                        // add status for the slot, the updates to come need it
+                        let status = SlotStatus {
+                            commitment,
+                            accounts_updated: BTreeSet::new(),
+                            parent,
+                        };
+                        lk.insert(slot, status);
                         if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Processed
+                            || commitment == Commitment::Finalized
                         {
-                            // add status for processed slot
-                            let status = SlotStatus {
-                                commitment,
-                                accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
-                            };
-                            lk.insert(slot, status);
+                            if let Some(parent_slot) = parent {
+                                // no account was updated in this slot but may be in its parents
+                                current_slot = Some((parent_slot, None));
+                            }
                         }
-                        break;
                     }
                 }
             }
-- 
2.43.0


From 25ca90279cf3137cdfd56bcfd1a7831e80dd12a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 05/41] fix: an account update never loses the commitment it
 came with

An update at confirmed was stored as processed only if its slot was known as processed.
---
 account_storage/src/inmemory_account_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 4a5c072..7dbbb52 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -132,7 +132,7 @@ impl InmemoryAccountStore {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                slot_status.commitment.max(commitment)
             }
             Commitment::Finalized => commitment,
         }
-- 
2.43.0


From 9ad4ce88a611459352781baca248b996991571be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 06/41] fix: a new account takes over the commitment its slot
 already has

An account seen first in a slot that is already confirmed or finalized stayed processed.
---
 account_storage/src/inmemory_account_store.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 7dbbb52..7c82b31 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -245,14 +245,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    // the slot of the new account may already be confirmed or finalized
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From b708e079646d6a9317d1bf45d5104de099cc3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 07/41] fix: index every account state by its owner

An account was not found by its new owner if it had no state at the commitment of the update.
---
 account_storage/src/inmemory_account_store.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 7c82b31..1d21987 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -98,10 +98,6 @@ impl InmemoryAccountStore {
                     return true;
                 }
             }
-            if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
-                // update owner if account was not deleted but owner was change and the filter criterias are satisfied
-                self.add_account_owner(account_index, new_account_data.account.owner);
-            }
         }
         false
     }
@@ -225,6 +221,10 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
+                    if !Self::is_deleted(&account_data) {
+                        // the account can be found by the owner of each of its states
+                        self.add_account_owner(index, account_data.account.owner);
+                    }
                     if let Some(prev_account) = prev_account {
                         if self.update_owner_delete_if_necessary(
                             &prev_account,
-- 
2.43.0


From 02cdfbd9c19ae14036522ec5f48417596e7328ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 08/41] fix: deleted accounts are not program accounts, with or
 without filters

---
 account_storage/src/inmemory_account_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 1d21987..9b8c4a6 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -188,7 +188,9 @@ impl InmemoryAccountStore {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
                     // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From abac3ee825a0a56ec44e729b463ac8b87484241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 09/41] fix: a finalized state never removes newer states of
 the account nor hides them from their owner

Finalizing an owner change dropped the account from the previous owner even if a newer state
belongs to it again, and finalizing a deletion dropped states newer than the deletion.
---
 .../src/account_data_by_commitment.rs         | 26 ++++++++++++++-
 account_storage/src/inmemory_account_store.rs | 33 ++++++++++++-------
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index d991980..2b7eaee 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -5,7 +5,7 @@ use lite_account_manager_common::{
     account_filter::AccountFilterType,
     commitment::Commitment,
 };
-use solana_sdk::clock::Slot;
+use solana_sdk::{clock::Slot, pubkey::Pubkey};
 
 #[derive(Default)]
 pub struct AccountDataByCommitment {
@@ -286,6 +286,30 @@ impl AccountDataByCommitment {
         }
     }
 
+    // returns true if one of the account states belongs to the owner
+    pub fn has_owner(&self, owner: &Pubkey) -> bool {
+        self.processed_accounts
+            .values()
+            .any(|x| x.account.owner == *owner)
+            || self
+                .confirmed_account
+                .as_ref()
+                .is_some_and(|x| x.account.owner == *owner)
+            || self
+                .finalized_account
+                .as_ref()
+                .is_some_and(|x| x.account.owner == *owner)
+    }
+
+    // returns true if there is an account state which is newer
+    pub fn has_newer_data(&self, data: &AccountData) -> bool {
+        self.get_account_data(Commitment::Processed)
+            .is_some_and(|x| {
+                data.updated_slot < x.updated_slot
+                    || (data.updated_slot == x.updated_slot && data.write_version < x.write_version)
+            })
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 9b8c4a6..d5d0713 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -68,6 +68,17 @@ impl InmemoryAccountStore {
         }
     }
 
+    fn remove_account_owner(&self, account_index: AccountIndex, owner: Pubkey) {
+        match self.accounts_by_owner.entry(owner) {
+            dashmap::mapref::entry::Entry::Occupied(mut occ) => {
+                occ.get_mut().write().unwrap().remove(&account_index);
+            }
+            dashmap::mapref::entry::Entry::Vacant(_) => {
+                // do nothing
+            }
+        }
+    }
+
     // here if the commitment is processed and the account has changed owner from A->B we keep the key for both A and B
     // then we remove the key from A for finalized commitment
     // returns true if entry needs to be deleted
@@ -75,26 +86,24 @@ impl InmemoryAccountStore {
         &self,
         prev_account_data: &AccountData,
         new_account_data: &AccountData,
+        account_by_commitment: &AccountDataByCommitment,
         account_index: AccountIndex,
         commitment: Commitment,
     ) -> bool {
         assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
         if prev_account_data.account.owner != new_account_data.account.owner {
             if commitment == Commitment::Finalized {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
-                {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
-                    }
+                // another state of the account may still belong to the previous owner
+                if !account_by_commitment.has_owner(&prev_account_data.account.owner) {
+                    self.remove_account_owner(account_index, prev_account_data.account.owner);
                 }
 
                 // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
+                // and there is no newer state of the account
+                if (Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data))
+                    && !account_by_commitment.has_newer_data(new_account_data)
+                {
+                    self.remove_account_owner(account_index, new_account_data.account.owner);
                     return true;
                 }
             }
@@ -231,6 +240,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         if self.update_owner_delete_if_necessary(
                             &prev_account,
                             &account_data,
+                            &acc_by_commitment,
                             index,
                             commitment,
                         ) {
@@ -450,6 +460,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         && self.update_owner_delete_if_necessary(
                             &prev_account_data,
                             &account_data,
+                            &writable_lk,
                             writable_account_index,
                             commitment,
                         )
-- 
2.43.0


From 8d440d92962efefdd558b4072d5260aa54650f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 10/41] fix: an account unknown to a dispatched storage is
 looked up in the default storage

---
 account_storage/src/storage_by_program_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..03612df 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -51,8 +51,8 @@ impl AccountStorageInterface for StorageByProgramId {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
+            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
+                return Ok(Some(account));
             }
         }
         self.default.get_account(account_pk, commitment)
-- 
2.43.0


From 43ea77d12a666588ac329cc95e514cc4b838c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 11/41] fix: an account loaded on demand is added to the
 filters

---
 accounts_on_demand/src/accounts_on_demand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..5728d38 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -104,6 +104,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 program_id: None,
                                 filters: None,
                             }];
+                            self.mutable_filters.add_account_filters(&account_filter);
                             self.accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
                                 .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-- 
2.43.0


From 9066632f2b912f2b6fa9d5bba8648d225b812fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 12/41] fix: a failed on-demand load is not waited for by later
 requests

---
 accounts_on_demand/src/accounts_on_demand.rs | 40 +++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 5728d38..2163676 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -93,9 +93,13 @@ impl AccountStorageInterface for AccountsOnDemand {
                             log::debug!("subscribing to accounts update : {}", account_pk);
                             let mut hash_set = HashSet::new();
                             hash_set.insert(account_pk);
-                            self.accounts_source
-                                .subscribe_accounts(hash_set)
-                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                            if self.accounts_source.subscribe_accounts(hash_set).is_err() {
+                                // nobody is loading the account anymore
+                                if let Some(notify) = lk.remove(&account_pk) {
+                                    notify.notify_all();
+                                }
+                                return Err(AccountLoadingError::ErrorSubscribingAccount);
+                            }
                             drop(lk);
 
                             // save snapshot
@@ -105,9 +109,10 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 filters: None,
                             }];
                             self.mutable_filters.add_account_filters(&account_filter);
-                            self.accounts_source
+                            let is_loaded = self
+                                .accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                                .is_ok();
                             // update loading lock
                             {
                                 let mut write_lock = self.accounts_in_loading.lock().unwrap();
@@ -117,6 +122,9 @@ impl AccountStorageInterface for AccountsOnDemand {
                                     notify.notify_all();
                                 }
                             }
+                            if !is_loaded {
+                                return Err(AccountLoadingError::ErrorCreatingSnapshot);
+                            }
                             self.accounts_storage.get_account(account_pk, commitment)
                         }
                     }
@@ -169,16 +177,27 @@ impl AccountStorageInterface for AccountsOnDemand {
                         (program_id, filters.clone().unwrap_or_default()),
                         Arc::new(Condvar::new()),
                     );
-                    self.accounts_source
+                    if self
+                        .accounts_source
                         .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                        .is_err()
+                    {
+                        // nobody is loading the program accounts anymore
+                        if let Some(notify) =
+                            lk.remove(&(program_id, filters.clone().unwrap_or_default()))
+                        {
+                            notify.notify_all();
+                        }
+                        return Err(AccountLoadingError::ErrorSubscribingAccount);
+                    }
                     drop(lk);
                     self.mutable_filters
                         .add_account_filters(&vec![account_filter.clone()]);
 
-                    self.accounts_source
+                    let is_loaded = self
+                        .accounts_source
                         .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                        .is_ok();
                     // update loading lock
                     {
                         let mut write_lock = self.gpa_in_loading.lock().unwrap();
@@ -189,6 +208,9 @@ impl AccountStorageInterface for AccountsOnDemand {
                             notify.notify_all();
                         }
                     }
+                    if !is_loaded {
+                        return Err(AccountLoadingError::ErrorCreatingSnapshot);
+                    }
                     self.accounts_storage
                         .get_program_accounts(program_id, filters, commitment)
                 }
-- 
2.43.0


From 26c13350fb7559ee09c4b1920fc753847dc73600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 13/41] fix: a request that times out waiting for an on-demand
 load reports it

---
 accounts_on_demand/src/accounts_on_demand.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 2163676..ecfeab3 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -77,8 +77,13 @@ impl AccountStorageInterface for AccountsOnDemand {
                 match lk.get(&account_pk).cloned() {
                     Some(loading_account) => {
                         match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
+                            Ok((loading, timeout))
+                                if timeout.timed_out() && loading.contains_key(&account_pk) =>
+                            {
+                                Err(AccountLoadingError::OperationTimeOut)
+                            }
                             Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
+                            Err(_poisoned) => Err(AccountLoadingError::OperationTimeOut),
                         }
                     }
                     None => {
@@ -158,12 +163,22 @@ impl AccountStorageInterface for AccountsOnDemand {
             {
                 Some(loading_account) => {
                     match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
+                        Ok((loading, timeout))
+                            if timeout.timed_out()
+                                && loading.contains_key(&(
+                                    program_id,
+                                    filters.clone().unwrap_or_default(),
+                                )) =>
+                        {
+                            log::error!("gPA on program : {}", program_id.to_string());
+                            Err(AccountLoadingError::OperationTimeOut)
+                        }
                         Ok(_) => self.accounts_storage.get_program_accounts(
                             program_id,
                             filters.clone(),
                             commitment,
                         ),
-                        Err(_timeout) => {
+                        Err(_poisoned) => {
                             // todo replace with error
                             log::error!("gPA on program : {}", program_id.to_string());
                             Err(AccountLoadingError::OperationTimeOut)
-- 
2.43.0


From 8a5442f0595d2b337db29f456235cdf2b9f70956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 14/41] fix: program accounts still being loaded on demand are
 waited for

---
 accounts_on_demand/src/accounts_on_demand.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index ecfeab3..4317b37 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -151,7 +151,14 @@ impl AccountStorageInterface for AccountsOnDemand {
         };
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
+        // if the program accounts are still being loaded, wait for them below
+        if self.mutable_filters.contains_filter(&account_filter)
+            && !self
+                .gpa_in_loading
+                .lock()
+                .unwrap()
+                .contains_key(&(program_id, filters.clone().unwrap_or_default()))
+        {
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
-- 
2.43.0


From d0ab9aa4293058597b5487e5d6c59a6a14fd2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 15/41] fix: the ancestors of a slot that already has the
 commitment are promoted as well

---
 account_storage/src/inmemory_account_store.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index d5d0713..a70a619 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -370,16 +370,12 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 current_slot = None;
                 match lk.get_mut(&slot) {
                     Some(status) => {
-                        let is_parent_learned = parent.is_some() && status.parent.is_none();
                         if parent.is_some() {
                             status.parent = parent;
                         }
-                        if status.commitment >= commitment {
-                            // slot already processed for the commitment
-                            if !is_parent_learned {
-                                break;
-                            }
-                        } else {
+                        // a slot already processed for the commitment may have got it from an
+                        // account, its parents did not
+                        if status.commitment < commitment {
                             status.commitment = commitment;
                             for account in &status.accounts_updated {
                                 match writable_accounts.entry(*account) {
@@ -397,7 +393,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         {
                             if let Some(parent_slot) = status.parent {
                                 // update commitment for parent slots
-                                current_slot = Some((parent_slot, None));
+                                if parent_slot < slot {
+                                    current_slot = Some((parent_slot, None));
+                                }
                             }
                         }
                     }
@@ -423,7 +421,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         {
                             if let Some(parent_slot) = parent {
                                 // no account was updated in this slot but may be in its parents
-                                current_slot = Some((parent_slot, None));
+                                if parent_slot < slot {
+                                    current_slot = Some((parent_slot, None));
+                                }
                             }
                         }
                     }
-- 
2.43.0


From 03d302404e138307062cb4b7509ac957302bdf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 16/41] fix: a memcmp filter whose text cannot be decoded
 matches nothing

---
 common/src/account_filter.rs      | 39 ++++++++++++++++++++-----------
 common/src/simple_filter_store.rs |  5 +++-
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9f07602..9637dcb 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -21,15 +21,14 @@ pub struct MemcmpFilter {
 }
 
 impl MemcmpFilter {
-    pub fn bytes(&self) -> Vec<u8> {
+    // none if the text cannot be decoded
+    pub fn bytes(&self) -> Option<Vec<u8>> {
         match &self.data {
-            MemcmpFilterData::Bytes(bytes) => bytes.clone(),
-            MemcmpFilterData::Base58(b58) => bs58::decode(b58)
-                .into_vec()
-                .expect("Base58 decoding should work"),
-            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
-                .decode(b64)
-                .expect("B64 decoding should work"),
+            MemcmpFilterData::Bytes(bytes) => Some(bytes.clone()),
+            MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec().ok(),
+            MemcmpFilterData::Base64(b64) => {
+                base64::engine::general_purpose::STANDARD.decode(b64).ok()
+            }
         }
     }
 
@@ -45,7 +44,10 @@ impl MemcmpFilter {
             }
             data[offset..offset + bytes.len()] == bytes[..]
         } else {
-            let bytes = self.bytes();
+            let Some(bytes) = self.bytes() else {
+                // the filter cannot be decoded so it matches nothing
+                return false;
+            };
             let offset = self.offset as usize;
             if offset > data.len() {
                 return false;
@@ -175,12 +177,21 @@ impl From<&RpcFilterType> for AccountFilterType {
         match value {
             RpcFilterType::DataSize(size) => AccountFilterType::Datasize(*size),
             RpcFilterType::Memcmp(memcmp) => {
-                let bytes = memcmp.bytes().map(|x| (*x).clone()).unwrap_or_default();
+                let data = match (memcmp.bytes(), &memcmp.bytes) {
+                    (Some(bytes), _) => MemcmpFilterData::Bytes((*bytes).clone()),
+                    // cannot be decoded, the filter should match nothing
+                    (None, MemcmpEncodedBytes::Base64(data)) => {
+                        MemcmpFilterData::Base64(data.clone())
+                    }
+                    (None, MemcmpEncodedBytes::Binary(data) | MemcmpEncodedBytes::Base58(data)) => {
+                        MemcmpFilterData::Base58(data.clone())
+                    }
+                    (None, MemcmpEncodedBytes::Bytes(bytes)) => {
+                        MemcmpFilterData::Bytes(bytes.clone())
+                    }
+                };
                 let offset = memcmp.offset as u64;
-                AccountFilterType::Memcmp(MemcmpFilter {
-                    offset,
-                    data: MemcmpFilterData::Bytes(bytes),
-                })
+                AccountFilterType::Memcmp(MemcmpFilter { offset, data })
             }
             RpcFilterType::TokenAccountState => {
                 unimplemented!()
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 2ba0b8c..2c96897 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -33,7 +33,10 @@ fn filters_in_bytes(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType
             AccountFilterType::Datasize(size) => AccountFilterType::Datasize(*size),
             AccountFilterType::Memcmp(memcmp) => AccountFilterType::Memcmp(MemcmpFilter {
                 offset: memcmp.offset,
-                data: MemcmpFilterData::Bytes(memcmp.bytes()),
+                data: match memcmp.bytes() {
+                    Some(bytes) => MemcmpFilterData::Bytes(bytes),
+                    None => memcmp.data.clone(),
+                },
             }),
         })
         .collect()
-- 
2.43.0


From d5dbc3a2534edfe872a0a58688983b70793d5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 17/41] fix: a malformed account filter is an error instead of
 a panic when deserialized

---
 common/src/account_filter.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9637dcb..54e2e10 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -1,6 +1,6 @@
 use base64::Engine;
 use itertools::Itertools;
-use serde::{ser::SerializeMap, Deserialize, Serialize};
+use serde::{de::Error, ser::SerializeMap, Deserialize, Serialize};
 use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 use std::str::FromStr;
@@ -112,28 +112,27 @@ impl<'de> Deserialize<'de> for AccountFilter {
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
 
+        let parse_pubkey = |value: &serde_json::value::Value| {
+            value
+                .as_str()
+                .and_then(|pubkey| Pubkey::from_str(pubkey).ok())
+                .ok_or_else(|| D::Error::custom("should be a valid pubkey"))
+        };
+
         let accounts = match json.get("accounts") {
             Some(accounts) => match accounts.as_array() {
                 Some(accounts_array) => accounts_array
                     .iter()
-                    .map(|v| {
-                        Pubkey::from_str(v.as_str().expect("should be string"))
-                            .expect("Pubkey should be valid")
-                    })
-                    .collect_vec(),
+                    .map(parse_pubkey)
+                    .collect::<Result<Vec<_>, _>>()?,
                 None => vec![],
             },
             None => vec![],
         };
-        let program_id = json.get("programId").map(|program_id| {
-            Pubkey::from_str(program_id.as_str().expect("should be string"))
-                .expect("Pubkey should be valid")
-        });
+        let program_id = json.get("programId").map(parse_pubkey).transpose()?;
 
         let filters = match json.get("filters") {
-            Some(filters) => {
-                serde_json::from_value(filters.clone()).expect("account filters not deserializable")
-            }
+            Some(filters) => serde_json::from_value(filters.clone()).map_err(D::Error::custom)?,
             None => None,
         };
         Ok(Self {
-- 
2.43.0


From 479b8d4943ecfc725ffbd2dc678123083e760fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 18/41] fix: token accounts sharing a partial pubkey are told
 apart and deleted separately

---
 .../src/inmemory_token_account_storage.rs     | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..fdee4ad 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -38,20 +38,15 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
-                let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
-                            == *pubkey
-                        {
-                            return Some(*index);
-                        }
+                let lk = self.token_accounts.read().unwrap();
+                for index in occ.get() {
+                    if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                        == *pubkey
+                    {
+                        return Some(*index);
                     }
-                    None
-                } else {
-                    Some(value[0])
                 }
+                None
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
@@ -127,8 +122,9 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -144,12 +140,17 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
-                let binary = write_lk.get_mut(index as usize).unwrap();
-                if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
-                    TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
-                    *binary = deleted_account;
-                    return;
+            // other accounts can share the partial pubkey, only remove this one
+            let position = occ.get().iter().position(|index| {
+                TokenAccount::get_pubkey_from_binary(write_lk.get(*index as usize).unwrap())
+                    == *pubkey
+            });
+            if let Some(position) = position {
+                let index = occ.get_mut().remove(position);
+                TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
+                *write_lk.get_mut(index as usize).unwrap() = deleted_account;
+                if occ.get().is_empty() {
+                    occ.remove();
                 }
             }
         }
-- 
2.43.0


From 2961c37e77ab54d44cf0cda6a4f1279b27028819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 19/41] fix: the parent of a slot without token accounts is
 remembered

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..f194e40 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -140,7 +140,7 @@ impl ProcessedAccountStore {
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: None,
+                        slot_parent: Some(slot_info.parent),
                     },
                 );
             }
-- 
2.43.0


From 702d9ab46634cb3345c017c047693b3d17c7d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 20/41] fix: token accounts can be read although their mint
 account is not stored

---
 token_account_storage/src/account_types.rs    | 21 ++++++++++++
 .../src/inmemory_token_storage.rs             | 33 ++++++++++++++-----
 .../src/token_program_utils.rs                |  9 +++++
 3 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/token_account_storage/src/account_types.rs b/token_account_storage/src/account_types.rs
index 78a556b..52fa194 100644
--- a/token_account_storage/src/account_types.rs
+++ b/token_account_storage/src/account_types.rs
@@ -91,6 +91,27 @@ pub struct MintAccount {
     pub additional_data: Option<Vec<u8>>,
 }
 
+impl MintAccount {
+    // known by its pubkey only, as long as the mint account is not stored or is deleted
+    pub fn not_existing(program: Program, pubkey: Pubkey) -> Self {
+        Self {
+            program,
+            pubkey,
+            lamports: 0,
+            supply: 0,
+            decimals: 0,
+            is_initialized: false,
+            mint_authority: None,
+            freeze_authority: None,
+            additional_data: None,
+        }
+    }
+
+    pub fn exists(&self) -> bool {
+        self.lamports > 0
+    }
+}
+
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct MultiSig {
     pub program: Program,
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index f194e40..b33511f 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -385,10 +385,13 @@ impl TokenProgramAccountsStorage {
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
+                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+                if let Some(index) = mint_index {
                     TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
+                    // there can still be token accounts of this mint
+                    if let Some(mut mint) = self.mints_by_index.get_mut(&index) {
+                        *mint = MintAccount::not_existing(mint.program, account_pk);
+                    }
                 } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
@@ -423,11 +426,13 @@ impl TokenProgramAccountsStorage {
 
         if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
             let mint_data = self.mints_by_index.get(&mint_index).unwrap();
-            return Some(token_mint_to_solana_account(
-                &mint_data,
-                self.finalized_slot.load(Ordering::Relaxed),
-                0,
-            ));
+            if mint_data.exists() {
+                return Some(token_mint_to_solana_account(
+                    &mint_data,
+                    self.finalized_slot.load(Ordering::Relaxed),
+                    0,
+                ));
+            }
         }
 
         if let Some(token_account) = self.token_accounts_storage.get_by_pubkey(&account_pk) {
@@ -465,7 +470,14 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(index) => Some(*index.value()),
+                        // there are no accounts of an unknown mint
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
@@ -528,6 +540,7 @@ impl TokenProgramAccountsStorage {
                 let mints = self
                     .mints_by_index
                     .iter()
+                    .filter(|mint_account| mint_account.exists())
                     .map(|mint_account| {
                         token_mint_to_solana_account(mint_account.value(), finalized_slot, 0)
                     })
@@ -569,6 +582,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             &account_data,
             &self.mints_index_by_pubkey,
             &self.mint_counter,
+            &self.mints_by_index,
         ) {
             Ok(res) => res,
             Err(e) => {
@@ -599,6 +613,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             &account_data,
             &self.mints_index_by_pubkey,
             &self.mint_counter,
+            &self.mints_by_index,
         ) {
             Ok(res) => res,
             Err(e) => {
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..e893908 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -39,13 +39,17 @@ impl TokenProgramAccountType {
 
 pub fn get_or_create_mint_index(
     mint: Pubkey,
+    program: Program,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
     mint_index_count: &Arc<AtomicU32>,
+    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
 ) -> MintIndex {
     match mint_index_by_pubkey.entry(mint) {
         dashmap::mapref::entry::Entry::Occupied(occ) => *occ.get(),
         dashmap::mapref::entry::Entry::Vacant(vac) => {
             let index = mint_index_count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+            // the pubkey of the mint is needed even if the mint account is not known yet
+            mints_by_index.insert(index, MintAccount::not_existing(program, mint));
             vac.insert(index);
             index
         }
@@ -56,6 +60,7 @@ pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
     mint_index_count: &Arc<AtomicU32>,
+    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
 ) -> anyhow::Result<TokenProgramAccountType> {
     if account_data.account.lamports == 0
         || (account_data.account.owner != spl_token::id()
@@ -115,8 +120,10 @@ pub fn get_token_program_account_type(
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
+                    Program::Token2022Program,
                     mint_index_by_pubkey,
                     mint_index_count,
+                    mints_by_index,
                 );
                 Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -190,8 +197,10 @@ pub fn get_token_program_account_type(
                 spl_token::state::Account::unpack_unchecked(&account_data.account.data.data())?;
             let mint_index = get_or_create_mint_index(
                 token_account.mint,
+                Program::TokenProgram,
                 mint_index_by_pubkey,
                 mint_index_count,
+                mints_by_index,
             );
             Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
                 program: crate::account_types::Program::TokenProgram,
-- 
2.43.0


From baf5f03f2e70b9768ad13f3e5f559ab4f617c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 21/41] fix: a finalized account replaces whatever was stored
 under its key

---
 .../src/inmemory_token_storage.rs             | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index b33511f..1c21ce3 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -330,8 +330,30 @@ impl TokenProgramAccountsStorage {
         }
     }
 
+    // the account might have been another type of account before
+    fn remove_other_account_types(&self, account: &TokenProgramAccountType) {
+        let account_pk = account.pubkey();
+        if !matches!(account, TokenProgramAccountType::Mint(_)) {
+            let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+            if let Some(mut mint) = mint_index.and_then(|x| self.mints_by_index.get_mut(&x)) {
+                if mint.exists() {
+                    TOKEN_MINTS_IN_MEMORY.dec();
+                }
+                // there can still be token accounts of this mint
+                *mint = MintAccount::not_existing(mint.program, account_pk);
+            }
+        }
+        if !matches!(account, TokenProgramAccountType::MultiSig(_, _)) {
+            self.multisigs.remove(&account_pk);
+        }
+        if !matches!(account, TokenProgramAccountType::TokenAccount(_)) {
+            self.token_accounts_storage.delete(&account_pk);
+        }
+    }
+
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+        self.remove_other_account_types(&account);
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
@@ -384,19 +406,8 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
-            TokenProgramAccountType::Deleted(account_pk) => {
-                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
-                if let Some(index) = mint_index {
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                    // there can still be token accounts of this mint
-                    if let Some(mut mint) = self.mints_by_index.get_mut(&index) {
-                        *mint = MintAccount::not_existing(mint.program, account_pk);
-                    }
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
-                    // do nothing multisig account is removed
-                } else {
-                    self.token_accounts_storage.delete(&account_pk);
-                }
+            TokenProgramAccountType::Deleted(_) => {
+                // already removed
             }
         }
         true
-- 
2.43.0


From 202b388043ea3f7c6a6f88dcafff695bc581f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 22/41] fix: a token account is listed under its current owner
 and mint

---
 .../src/inmemory_token_storage.rs             | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 1c21ce3..d5e9a20 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -358,14 +358,26 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
+                // the owner (or the mint if the account was recreated) can change
+                let (owner_changed, mint_changed) = match self
+                    .token_accounts_storage
+                    .get_by_pubkey(&token_account.pubkey)
+                {
+                    Some(previous) => (
+                        previous.owner != token_account_owner,
+                        previous.mint != mint_index,
+                    ),
+                    None => (true, true),
+                };
                 let (token_index, is_added) =
                     self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
-                    // add account to the indexes
+                if is_added || mint_changed {
                     // add account index in accounts_index_by_mint map
                     match self.accounts_index_by_mint.entry(mint_index) {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push_back(token_index);
+                            if !occ.get().contains(&token_index) {
+                                occ.get_mut().push_back(token_index);
+                            }
                         }
                         dashmap::mapref::entry::Entry::Vacant(v) => {
                             let mut q = VecDeque::new();
@@ -373,14 +385,17 @@ impl TokenProgramAccountsStorage {
                             v.insert(q);
                         }
                     }
-
+                }
+                if is_added || owner_changed {
                     // add account index in account_by_owner_pubkey map
                     match self
                         .account_by_owner_pubkey
                         .entry(token_account_owner.into())
                     {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push(token_index);
+                            if !occ.get().contains(&token_index) {
+                                occ.get_mut().push(token_index);
+                            }
                         }
                         dashmap::mapref::entry::Entry::Vacant(v) => {
                             v.insert(vec![token_index]);
@@ -531,6 +546,7 @@ impl TokenProgramAccountsStorage {
                                 .token_accounts_storage
                                 .get_by_index(indexes)?
                                 .iter()
+                                .filter(|acc| acc.mint == *mint_index.value())
                                 .filter_map(|token_account| {
                                     token_account_to_solana_account(
                                         token_account,
-- 
2.43.0


From c129d001fac565bdd788bcbffa4b207357a4db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 23/41] fix: a snapshot of a token program can be loaded and
 contains only its accounts

---
 .../src/inmemory_token_storage.rs             | 66 ++++++++-----------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index d5e9a20..5d674c9 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -24,7 +24,7 @@ use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
     token_account_storage_interface::TokenAccountStorageInterface,
     token_program_utils::{
-        get_spl_token_owner_mint_filter, get_token_program_account_type,
+        get_or_create_mint_index, get_spl_token_owner_mint_filter, get_token_program_account_type,
         token_account_to_solana_account, token_mint_to_solana_account,
         token_multisig_to_solana_account, token_program_account_to_solana_account,
         TokenProgramAccountType,
@@ -792,7 +792,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             .mints_by_index
             .iter()
             .filter_map(|mint_data| {
-                if mint_data.program == program {
+                // a mint which is not stored can be used by the accounts of both programs
+                if mint_data.program == program || !mint_data.exists() {
                     Some((*mint_data.key(), mint_data.clone()))
                 } else {
                     None
@@ -800,7 +801,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             })
             .collect_vec();
 
-        let multisigs = self.multisigs.iter().map(|ite| ite.clone()).collect_vec();
+        let multisigs = self
+            .multisigs
+            .iter()
+            .filter(|multisig| multisig.program == program)
+            .map(|multisig| multisig.clone())
+            .collect_vec();
         let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
 
         let snapshot = TokenProgramSnapshot {
@@ -813,7 +819,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            true,
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
@@ -835,52 +841,34 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         } = snapshot;
 
         for multisig in multisigs {
-            self.multisigs.insert(multisig.pubkey, multisig);
+            let pubkey = multisig.pubkey;
+            self.add_account_finalized(TokenProgramAccountType::MultiSig(multisig, pubkey));
         }
 
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
         // remap all the mints
         for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
-                }
-                None => {
-                    let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
-                    mint_mapping.insert(index, mint_index);
-                    self.mints_by_index.insert(mint_index, mint_account);
-                }
+            let mint_index = get_or_create_mint_index(
+                mint_account.pubkey,
+                mint_account.program,
+                &self.mints_index_by_pubkey,
+                &self.mint_counter,
+                &self.mints_by_index,
+            );
+            mint_mapping.insert(index, mint_index);
+            if mint_account.exists() {
+                self.add_account_finalized(TokenProgramAccountType::Mint(mint_account));
             }
         }
 
         for token_account_bytes in token_accounts {
             // use the new mint index
             let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
-            token_account.mint = new_mint_index;
-            let owner = token_account.owner;
-            let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
-                }
-            }
+            let Some(new_mint_index) = mint_mapping.get(&token_account.mint) else {
+                return Err(AccountLoadingError::DeserializationIssues);
+            };
+            token_account.mint = *new_mint_index;
+            self.add_account_finalized(TokenProgramAccountType::TokenAccount(token_account));
         }
 
         Ok(())
-- 
2.43.0


From 1680dbb4a5de6d69b00bc2fd707afbfeebf8445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 24/41] fix: accounts with token-2022 extensions are stored
 instead of rejected

---
 token_account_storage/src/token_program_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index e893908..b883976 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -99,8 +99,9 @@ pub fn get_token_program_account_type(
         match type_account {
             0 => {
                 //mint
+                // the extensions are stored after the base state
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -115,8 +116,9 @@ pub fn get_token_program_account_type(
                 }))
             }
             1 => {
+                // the extensions are stored after the base state
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From fc873b6b2c31aa53b346ebe90503e4a601241317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:59 +0000
Subject: [PATCH 25/41] fix: the signers of a multisig keep their positions

---
 .../src/token_program_utils.rs                | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index b883976..3278c7a 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -5,7 +5,6 @@ use crate::account_types::{
 };
 use anyhow::bail;
 use dashmap::DashMap;
-use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
     account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
@@ -56,6 +55,15 @@ pub fn get_or_create_mint_index(
     }
 }
 
+// an unused signer is set to default, but a signer in use can also be default (the system program)
+fn without_unused_signers(signers: &[Pubkey]) -> Vec<Pubkey> {
+    let mut used = signers.len();
+    while used > 0 && signers[used - 1] == Pubkey::default() {
+        used -= 1;
+    }
+    signers[..used].to_vec()
+}
+
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
@@ -166,12 +174,7 @@ pub fn get_token_program_account_type(
                         is_initialized: multi_sig.is_initialized,
                         m: multi_sig.m,
                         n: multi_sig.n,
-                        signers: multi_sig
-                            .signers
-                            .iter()
-                            .filter(|x| **x != Pubkey::default())
-                            .copied()
-                            .collect_vec(),
+                        signers: without_unused_signers(&multi_sig.signers),
                     },
                     account_data.pubkey,
                 ))
@@ -240,12 +243,7 @@ pub fn get_token_program_account_type(
                     is_initialized: multi_sig.is_initialized,
                     m: multi_sig.m,
                     n: multi_sig.n,
-                    signers: multi_sig
-                        .signers
-                        .iter()
-                        .filter(|x| **x != Pubkey::default())
-                        .copied()
-                        .collect_vec(),
+                    signers: without_unused_signers(&multi_sig.signers),
                 },
                 account_data.pubkey,
             ))
-- 
2.43.0


From 8f81baa5922b020e9032afc22608ddb01d54f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 26/41] fix: the deletion of a token account which is not
 finalized yet is not lost

---
 token_account_storage/src/inmemory_token_storage.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 5d674c9..a0c89f0 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -123,6 +123,12 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn contains(&self, account_pk: &Pubkey) -> bool {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .any(|slot| slot.processed_accounts.contains_key(account_pk))
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -438,6 +444,7 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
+            || self.processed_storage.contains(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
-- 
2.43.0


From 5f6e89f8606123de57307d898b0c03c1d43a1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 27/41] fix: an account which left a dispatched program is
 stored by the default storage

---
 account_storage/src/storage_by_program_id.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 03612df..bbe9566 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -27,12 +27,22 @@ impl StorageByProgramId {
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        let mut updated = false;
         for (_, interface) in self.program_id_dispatch_map.iter() {
             if interface.update_account(account_data.clone(), commitment) {
-                return true;
+                updated = true;
+                break;
             }
         }
-        self.default.update_account(account_data, commitment)
+        // an account which left a dispatched program belongs to the default storage
+        if !updated
+            || !self
+                .program_id_dispatch_map
+                .contains_key(&account_data.account.owner)
+        {
+            updated |= self.default.update_account(account_data, commitment);
+        }
+        updated
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-- 
2.43.0


From 7d93cd5086918b60c73d1ca4c05c7f829b871750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 28/41] fix: token account lists agree with the accounts read
 one by one

---
 .../src/inmemory_token_storage.rs             | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index a0c89f0..24b7995 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -129,6 +129,13 @@ impl ProcessedAccountStore {
             .any(|slot| slot.processed_accounts.contains_key(account_pk))
     }
 
+    pub fn get_account_pubkeys(&self) -> HashSet<Pubkey> {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .flat_map(|slot| slot.processed_accounts.keys().copied())
+            .collect()
+    }
+
     pub fn update_slot_info(&self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
@@ -704,15 +711,22 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         }
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
-            self.get_program_accounts_finalized(program_pubkey, account_filters)?;
+            self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
         let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
             // get list of all pks to search
-            let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
+            let mut pks = account_data.iter().map(|x| x.pubkey).collect_vec();
+            // accounts that are not finalized yet or did not match the filters when finalized
+            let mut processed_pks = self.processed_storage.get_account_pubkeys();
+            for pk in &pks {
+                processed_pks.remove(pk);
+            }
+            pks.extend(processed_pks);
             let processed_accounts =
                 self.processed_storage
                     .get_accounts(pks, commitment, confirmed_slot);
             let mut to_remove = vec![];
+            let mut to_add = vec![];
             for (index, processed_account) in processed_accounts.iter().enumerate() {
                 if let Some((processed_account, slot)) = processed_account {
                     let updated_account = token_program_account_to_solana_account(
@@ -721,15 +735,17 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         processed_account.write_version,
                         &self.mints_by_index,
                     );
-                    match updated_account {
-                        Some(updated_account) => {
+                    match (account_data.get_mut(index), updated_account) {
+                        (Some(account), Some(updated_account)) => {
                             // update with processed or confirmed account state
-                            *account_data.get_mut(index).unwrap() = updated_account;
+                            *account = updated_account;
                         }
-                        None => {
+                        (Some(_), None) => {
                             // account must have been deleted
                             to_remove.push(index);
                         }
+                        (None, Some(updated_account)) => to_add.push(updated_account),
+                        (None, None) => {}
                     }
                 }
             }
@@ -737,7 +753,16 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             for index in to_remove.iter().rev() {
                 account_data.remove(*index);
             }
+            account_data.append(&mut to_add);
         }
+        // the filters were only used to select the index to search
+        account_data.retain(|account| {
+            account.account.owner == program_pubkey
+                && account_filters
+                    .iter()
+                    .flatten()
+                    .all(|filter| filter.allows(&account.account.data.data()))
+        });
         Ok(account_data)
     }
 
-- 
2.43.0


From 34e31dd62d0970928c0e4ad1ac15d26e6fbf93f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 29/41] fix: a token snapshot contains the mints used by its
 accounts

---
 .../src/inmemory_token_storage.rs                  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 24b7995..22073d7 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -820,13 +820,22 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             return Err(AccountLoadingError::WrongIndex);
         };
 
+        let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
+        let used_mints = token_accounts
+            .iter()
+            .map(|token_account| TokenAccount::get_mint_index_from_binary(token_account))
+            .collect::<HashSet<_>>();
+
         let mints = self
             .mints_by_index
             .iter()
             .filter_map(|mint_data| {
-                // a mint which is not stored can be used by the accounts of both programs
-                if mint_data.program == program || !mint_data.exists() {
+                if mint_data.program == program && mint_data.exists() {
                     Some((*mint_data.key(), mint_data.clone()))
+                } else if used_mints.contains(mint_data.key()) {
+                    // the pubkey of the mint is needed by its token accounts
+                    let mint = MintAccount::not_existing(mint_data.program, mint_data.pubkey);
+                    Some((*mint_data.key(), mint))
                 } else {
                     None
                 }
@@ -839,7 +848,6 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             .filter(|multisig| multisig.program == program)
             .map(|multisig| multisig.clone())
             .collect_vec();
-        let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
 
         let snapshot = TokenProgramSnapshot {
             mints,
-- 
2.43.0


From f85d7deb1963552d777953a3fbe19fe5522c1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 30/41] fix: a slot that is reported as its own parent made
 every confirmed read loop forever

---
 token_account_storage/src/inmemory_token_storage.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 22073d7..89d29c4 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -143,17 +143,23 @@ impl ProcessedAccountStore {
             slot_info.parent,
             slot_info.root
         );
+        // the first slot is reported as its own parent, there is nothing before it
+        let slot_parent = if slot_info.parent < slot_info.slot {
+            Some(slot_info.parent)
+        } else {
+            None
+        };
         let mut lk = self.processed_slot_accounts.write().unwrap();
         match lk.get_mut(&slot_info.slot) {
             Some(processed_account_by_slot) => {
-                processed_account_by_slot.slot_parent = Some(slot_info.parent);
+                processed_account_by_slot.slot_parent = slot_parent;
             }
             None => {
                 lk.insert(
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: Some(slot_info.parent),
+                        slot_parent,
                     },
                 );
             }
-- 
2.43.0


From 50cb09802423d6654bb0989d8df14e494b988e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 31/41] fix: a storage dispatched for several programs is
 notified of a slot once

---
 account_storage/src/storage_by_program_id.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index bbe9566..d7121f9 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -84,7 +84,13 @@ impl AccountStorageInterface for StorageByProgramId {
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
         let mut return_vec = vec![];
+        // a storage dispatched for several programs is notified once
+        let mut notified: Vec<Arc<dyn AccountStorageInterface>> = vec![];
         for (_, interface) in self.program_id_dispatch_map.iter() {
+            if notified.iter().any(|x| Arc::ptr_eq(x, interface)) {
+                continue;
+            }
+            notified.push(interface.clone());
             let mut t = interface.process_slot_data(slot_info, commitment);
             return_vec.append(&mut t);
         }
-- 
2.43.0


From df8d7287eff2d2be18f71a541432252d52cc7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 32/41] fix: an account which moves from one dispatched program
 to another reaches its storage

---
 account_storage/src/storage_by_program_id.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index d7121f9..4245812 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -27,12 +27,10 @@ impl StorageByProgramId {
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        // every storage may hold the account, which may have left the program of one for that of another
         let mut updated = false;
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if interface.update_account(account_data.clone(), commitment) {
-                updated = true;
-                break;
-            }
+            updated |= interface.update_account(account_data.clone(), commitment);
         }
         // an account which left a dispatched program belongs to the default storage
         if !updated
-- 
2.43.0


From 2f50e6aa4a7f6815c6d4d771b8951d07e7f10b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 33/41] fix: an account which moves from the default storage to
 a dispatched program leaves it

---
 account_storage/src/storage_by_program_id.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 4245812..53a124e 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -23,6 +23,21 @@ impl StorageByProgramId {
             default,
         }
     }
+
+    fn is_in_default_storage(&self, account_pk: Pubkey) -> bool {
+        [
+            Commitment::Processed,
+            Commitment::Confirmed,
+            Commitment::Finalized,
+        ]
+        .iter()
+        .any(|commitment| {
+            matches!(
+                self.default.get_account(account_pk, *commitment),
+                Ok(Some(_))
+            )
+        })
+    }
 }
 
 impl AccountStorageInterface for StorageByProgramId {
@@ -33,10 +48,13 @@ impl AccountStorageInterface for StorageByProgramId {
             updated |= interface.update_account(account_data.clone(), commitment);
         }
         // an account which left a dispatched program belongs to the default storage
+        // and an account which the default storage still holds has to leave it
         if !updated
             || !self
                 .program_id_dispatch_map
                 .contains_key(&account_data.account.owner)
+            || account_data.account.lamports == 0
+            || self.is_in_default_storage(account_data.pubkey)
         {
             updated |= self.default.update_account(account_data, commitment);
         }
-- 
2.43.0


From 80545d067141d7421b2f295024610c837d30e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 34/41] fix: the default storage dispatched for a program too
 is notified of a slot once

---
 account_storage/src/storage_by_program_id.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 53a124e..30335a0 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -110,8 +110,10 @@ impl AccountStorageInterface for StorageByProgramId {
             let mut t = interface.process_slot_data(slot_info, commitment);
             return_vec.append(&mut t);
         }
-        let mut t = self.default.process_slot_data(slot_info, commitment);
-        return_vec.append(&mut t);
+        if !notified.iter().any(|x| Arc::ptr_eq(x, &self.default)) {
+            let mut t = self.default.process_slot_data(slot_info, commitment);
+            return_vec.append(&mut t);
+        }
         return_vec
     }
 
-- 
2.43.0


From 412fe2ef3f81507b57b0c6db8424e3456bef9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 35/41] fix: an account loaded by another request meanwhile was
 answered as not existing

---
 accounts_on_demand/src/accounts_on_demand.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 4317b37..6d214e3 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -90,7 +90,9 @@ impl AccountStorageInterface for AccountsOnDemand {
                         // account is not loading
                         if self.mutable_filters.contains_account(account_pk) {
                             // account was already tried to be loaded but does not exists
-                            Ok(None)
+                            // unless it was loaded or written since the storage was asked
+                            drop(lk);
+                            self.accounts_storage.get_account(account_pk, commitment)
                         } else {
                             // update account loading map
                             // create a notify for accounts under loading
-- 
2.43.0


From b61b77188c58b2944b7e9a5175210465393ba1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 36/41] fix: a spurious wakeup ended the wait for a load on
 demand

---
 accounts_on_demand/src/accounts_on_demand.rs | 27 +++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 6d214e3..bb09a68 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -76,10 +76,12 @@ impl AccountStorageInterface for AccountsOnDemand {
                 let mut lk = self.accounts_in_loading.lock().unwrap();
                 match lk.get(&account_pk).cloned() {
                     Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok((loading, timeout))
-                                if timeout.timed_out() && loading.contains_key(&account_pk) =>
-                            {
+                        match loading_account.wait_timeout_while(
+                            lk,
+                            Duration::from_secs(10),
+                            |loading| loading.contains_key(&account_pk),
+                        ) {
+                            Ok((_, timeout)) if timeout.timed_out() => {
                                 Err(AccountLoadingError::OperationTimeOut)
                             }
                             Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
@@ -171,14 +173,15 @@ impl AccountStorageInterface for AccountsOnDemand {
                 .cloned()
             {
                 Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok((loading, timeout))
-                            if timeout.timed_out()
-                                && loading.contains_key(&(
-                                    program_id,
-                                    filters.clone().unwrap_or_default(),
-                                )) =>
-                        {
+                    match loading_account.wait_timeout_while(
+                        lk,
+                        Duration::from_secs(10),
+                        |loading| {
+                            loading
+                                .contains_key(&(program_id, filters.clone().unwrap_or_default()))
+                        },
+                    ) {
+                        Ok((_, timeout)) if timeout.timed_out() => {
                             log::error!("gPA on program : {}", program_id.to_string());
                             Err(AccountLoadingError::OperationTimeOut)
                         }
-- 
2.43.0


From 67b99114c387876114cd89cdc7002fcb5798e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 37/41] fix: two requests at the same time could load the same
 program accounts twice

---
 accounts_on_demand/src/accounts_on_demand.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index bb09a68..20c0286 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -156,18 +156,15 @@ impl AccountStorageInterface for AccountsOnDemand {
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
         // if the program accounts are still being loaded, wait for them below
+        let mut lk = self.gpa_in_loading.lock().unwrap();
         if self.mutable_filters.contains_filter(&account_filter)
-            && !self
-                .gpa_in_loading
-                .lock()
-                .unwrap()
-                .contains_key(&(program_id, filters.clone().unwrap_or_default()))
+            && !lk.contains_key(&(program_id, filters.clone().unwrap_or_default()))
         {
+            drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
-            let mut lk = self.gpa_in_loading.lock().unwrap();
             match lk
                 .get(&(program_id, filters.clone().unwrap_or_default()))
                 .cloned()
-- 
2.43.0


From 348882f424e6a7814053926e3db73deffcce40db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 38/41] fix: deadlock between process_slot_data and
 update_account when an account is removed

update_account locks the pubkey and then the account; process_slot_data locked the
account and then the pubkey to remove it. Lock the pubkey first in both.
---
 account_storage/src/inmemory_account_store.rs | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index a70a619..bb8727e 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -447,26 +447,37 @@ impl AccountStorageInterface for InmemoryAccountStore {
 
         let mut updated_accounts = vec![];
 
-        let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
-            let mut writable_lk = lk[writable_account_index].write().unwrap();
-            if let Some((account_data, prev_account_data)) =
+            let promoted = {
+                let lk = self.accounts_store.read().unwrap();
+                let mut writable_lk = lk[writable_account_index].write().unwrap();
                 writable_lk.promote_slot_commitment(update_slot, commitment)
-            {
+            };
+            if let Some((account_data, prev_account_data)) = promoted {
                 if let Some(prev_account_data) = prev_account_data {
                     // check if owner has changed
-                    if (prev_account_data.account.owner != account_data.account.owner
-                        || account_data.account.lamports == 0)
-                        && self.update_owner_delete_if_necessary(
-                            &prev_account_data,
-                            &account_data,
-                            &writable_lk,
-                            writable_account_index,
-                            commitment,
-                        )
+                    if prev_account_data.account.owner != account_data.account.owner
+                        || account_data.account.lamports == 0
                     {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
-                        writable_lk.delete();
+                        // the pubkey is locked before the account, like in update_account
+                        if let dashmap::mapref::entry::Entry::Occupied(occ) =
+                            self.pubkey_to_account_index.entry(account_data.pubkey)
+                        {
+                            if *occ.get() == writable_account_index {
+                                let lk = self.accounts_store.read().unwrap();
+                                let mut writable_lk = lk[writable_account_index].write().unwrap();
+                                if self.update_owner_delete_if_necessary(
+                                    &prev_account_data,
+                                    &account_data,
+                                    &writable_lk,
+                                    writable_account_index,
+                                    commitment,
+                                ) {
+                                    writable_lk.delete();
+                                    occ.remove_entry();
+                                }
+                            }
+                        }
                     }
                 }
                 // account has been confirmed first time
-- 
2.43.0


From fc4da9afe0e0f24fdf8151f60cacc85c1ba7f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 39/41] fix: refuse an account file of a snapshot archive that
 ends before its recorded length

---
 simulate_from_snapshot/src/snapshot_utils/append_vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
index 53585e6..eb7a1c2 100644
--- a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
@@ -161,7 +161,11 @@ impl AppendVec {
         slot: u64,
     ) -> io::Result<Self> {
         let mut map = MmapMut::map_anon(current_len)?;
-        io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        let copied = io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        if copied < current_len as u64 {
+            // the rest would be taken for accounts
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(AppendVec {
             map: map.make_read_only()?,
             current_len,
-- 
2.43.0


From 68df3f2c4b7be96c08a68091054e2a263453af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 40/41] fix: report account files of an unpacked snapshot that
 cannot be read instead of leaving them out

---
 simulate_from_snapshot/src/snapshot_utils/unpacked.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
index 780e9b9..93602cc 100644
--- a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
@@ -86,7 +86,8 @@ impl UnpackedSnapshotExtractor {
     pub fn unboxed_iter(&self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
         std::iter::once(self.iter_streams())
             .flatten_ok()
-            .flatten_ok()
+            // a file that cannot be read is an error, not left out
+            .map(|append_vec| append_vec.and_then(|append_vec| append_vec))
     }
 
     fn iter_streams(&self) -> SnapshotResult<impl Iterator<Item = SnapshotResult<AppendVec>> + '_> {
-- 
2.43.0


From 017bfa1bfd592d59e0d71f47fcb7f94d42151f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 41/41] fix: an update at the same time as the first one of its
 account, or as the report of its slot, was never promoted

The slot of an update was looked up before its account was locked: an account
added meanwhile was not recorded for the slot, and a slot reported meanwhile
found no update to promote.
---
 account_storage/src/inmemory_account_store.rs | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index bb8727e..26b2af5 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -143,25 +143,6 @@ impl InmemoryAccountStore {
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -221,14 +202,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the slot is already confirmed, with the account locked: a slot reported
+                // from here on waits for the update
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-- 
2.43.0

