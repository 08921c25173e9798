From ca95b3fd7e8b547c828bef709dd87feda3efbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:35 +0000
Subject: [PATCH 01/25] fix: repair the flash when a map iteration starts on a
 half-erased page

---
 src/map.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 88a4bda..fffe7f0 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -788,7 +788,8 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         // Get the first page index.
         // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-            function = {
+            // The async block makes the question marks end up at the repair instead of leaving this function
+            function = async {
                 match self
                     .inner
                     .find_first_page(0, PageState::PartialOpen)
@@ -796,7 +797,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 {
                     Some(last_used_page) => {
                         // The next page of the `PartialOpen` page is the first page
-                        Ok(self.inner.next_page(last_used_page))
+                        Ok::<_, Error<S::Error>>(self.inner.next_page(last_used_page))
                     }
                     None => {
                         // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
@@ -830,7 +831,8 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                         }
                     }
                 }
-            },
+            }
+            .await,
             repair = self.try_repair(data_buffer).await?
         )?;
 
-- 
2.43.0


From b7c586a61bb21259f30aae23962864698d045a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:17 +0000
Subject: [PATCH 02/25] fix: invalidate the cache in erase_all

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 37fb23a..a44b968 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,9 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     ///
     /// This is just a thin helper function as it just calls the flash's erase function.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        // Nothing the cache knows is true anymore, even when the erase doesn't finish
+        self.cache.invalidate_cache_state();
+
         self.flash
             .erase(self.flash_range.start, self.flash_range.end)
             .await
-- 
2.43.0


From f2f58dbf6237e2418c1de159b392355d9ccf0b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:58 +0000
Subject: [PATCH 03/25] fix: don't trust a dirty cache in map removal and
 iteration

---
 src/map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index fffe7f0..47a0a44 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -630,6 +630,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
@@ -785,6 +789,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         // Get the first page index.
         // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-- 
2.43.0


From fc84586b1aac0c242b4f9cc39be7bb5d6ef1ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:44 +0000
Subject: [PATCH 04/25] fix: check the key of an item found through the key
 cache

---
 src/map.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 47a0a44..70d8763 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -271,7 +271,18 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                         break 'cache;
                     }
                     item::MaybeItem::Present(item) => {
-                        return Ok(Some((item.unborrow(), cached_location, None)));
+                        let (found_key, found_key_len) = K::deserialize_from(item.data())?;
+                        if found_key != *search_key {
+                            // The item we knew about got lost to corruption and its page has been reused since
+                            self.inner.cache.invalidate_cache_state();
+                            break 'cache;
+                        }
+
+                        return Ok(Some((
+                            item.unborrow(),
+                            cached_location,
+                            Some(found_key_len),
+                        )));
                     }
                 }
             }
-- 
2.43.0


From 2f1d23e4b6ca2b0d95432927530dd3cf37ccda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 05/25] fix: finish an interrupted migration before removing
 items

---
 src/map.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 70d8763..7ce5553 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -659,7 +659,23 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             .find_first_page(0, PageState::PartialOpen)
             .await?
         {
-            Some(last_used_page) => last_used_page,
+            Some(last_used_page) => {
+                if !self
+                    .inner
+                    .get_page_state_cached(self.inner.next_page(last_used_page))
+                    .await?
+                    .is_open()
+                {
+                    // A data migration got interrupted and the repair will redo it from the next page.
+                    // We can't remove anything before that, since that takes away what the repair works with.
+                    return Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    });
+                }
+
+                last_used_page
+            }
             None => {
                 // Oh dear, there's no active partial open page. Seems like some operation was cancelled or didn't make it through.
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
-- 
2.43.0


From ff8c53030e56c76026713a3a8dbb0ced3424b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:28 +0000
Subject: [PATCH 06/25] fix: report storage errors hit by the map iterator when
 it switches pages

---
 src/map.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 7ce5553..18a7e25 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1120,19 +1120,27 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
             // The current page is done, we need to find the next page
             // Find next page which is not open, update `self.current_iter`
             loop {
-                self.current_page_index = self.storage.inner.next_page(self.current_page_index);
+                let next_page_index = self.storage.inner.next_page(self.current_page_index);
 
                 // We've looped back to the first page, which means all pages are checked, there's nothing left so we return None
-                if self.current_page_index == self.first_page {
+                if next_page_index == self.first_page {
                     return Ok(None);
                 }
 
-                match self
+                let page_state = self
                     .storage
                     .inner
-                    .get_page_state_cached(self.current_page_index)
-                    .await
-                {
+                    .get_page_state_cached(next_page_index)
+                    .await;
+
+                if let Err(e @ Error::Storage { .. }) = page_state {
+                    // We don't know what's on this page. Skipping it would silently lose its items.
+                    return Err(e);
+                }
+
+                self.current_page_index = next_page_index;
+
+                match page_state {
                     Ok(PageState::Closed | PageState::PartialOpen) => {
                         self.current_iter = ItemIter::new(
                             calculate_page_address::<S>(
-- 
2.43.0


From 69476041eb226c33a19c2f65125b9c0a9a4bdb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 07/25] fix: retry the item header as well when the data
 doesn't match its crc

---
 src/item.rs      | 17 +++++++++++++++--
 src/queue/mod.rs |  9 +--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..83ec449 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -121,7 +121,7 @@ impl ItemHeader {
     }
 
     pub(crate) async fn read_item<'d, S: NorFlash>(
-        self,
+        mut self,
         flash: &mut S,
         data_buffer: &'d mut [u8],
         address: u32,
@@ -129,7 +129,7 @@ impl ItemHeader {
     ) -> Result<MaybeItem<'d>, Error<S::Error>> {
         match self.crc {
             None => Ok(MaybeItem::Erased(self, data_buffer)),
-            Some(header_crc) => {
+            Some(mut header_crc) => {
                 let data_address = ItemHeader::data_address::<S>(address);
                 let read_len = round_up_to_alignment_usize::<S>(self.length as usize);
                 if data_address + read_len as u32 > end_address {
@@ -163,6 +163,19 @@ impl ItemHeader {
                     } else {
                         if !retry {
                             retry = true;
+
+                            // It may have been the crc in the header that was read wrong
+                            match Self::read_new(flash, address, end_address).await {
+                                Ok(Some(reread)) if reread.length == self.length => {
+                                    self.crc = reread.crc;
+                                    match reread.crc {
+                                        None => return Ok(MaybeItem::Erased(self, data_buffer)),
+                                        Some(crc) => header_crc = crc,
+                                    }
+                                }
+                                Err(e @ Error::Storage { .. }) => return Err(e),
+                                _ => {}
+                            }
                             continue;
                         }
                         Ok(MaybeItem::Corrupted(self, data_buffer))
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..46ca41c 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -774,7 +774,7 @@ impl<'s, S: NorFlash, C: CacheImpl<()>> QueueIterator<'s, S, C> {
                     .await?;
 
                 match maybe_item {
-                    item::MaybeItem::Corrupted(header, _) => {
+                    item::MaybeItem::Corrupted(header, _) | item::MaybeItem::Erased(header, _) => {
                         let next_address = header.next_item_address::<S>(found_item_address);
                         self.next_address = if next_address >= page_data_end_address {
                             NextAddress::PageAfter(current_page)
@@ -782,13 +782,6 @@ impl<'s, S: NorFlash, C: CacheImpl<()>> QueueIterator<'s, S, C> {
                             NextAddress::Address(next_address)
                         };
                     }
-                    item::MaybeItem::Erased(_, _) => {
-                        // Item is already erased
-                        return Err(Error::LogicBug {
-                            #[cfg(feature = "_test")]
-                            backtrace: std::backtrace::Backtrace::capture(),
-                        });
-                    }
                     item::MaybeItem::Present(item) => {
                         let next_address = item.header.next_item_address::<S>(found_item_address);
                         self.next_address = if next_address >= page_data_end_address {
-- 
2.43.0


From 74bf4ba4855fe4566322e61fb7c420acdcdda885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:23 +0000
Subject: [PATCH 08/25] fix: read a header again when it claims more than the
 page can hold

---
 src/item.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 83ec449..fdd9681 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -82,7 +82,16 @@ impl ItemHeader {
             let length_crc = u16::from_le_bytes(buffer[Self::LENGTH_CRC_FIELD].try_into().unwrap());
             let calculated_length_crc = crc16(&buffer[Self::LENGTH_FIELD]);
 
-            if calculated_length_crc != length_crc {
+            // A header that claims to be larger than is possible is never written.
+            // So if the checksum is right, it's either a bug, a CRC collision or something that was misread.
+            // Fully erased bytes with a single flipped bit happen to be such a collision.
+            let next_item_address = Self {
+                length: u16::from_le_bytes(buffer[Self::LENGTH_FIELD].try_into().unwrap()),
+                crc: None,
+            }
+            .next_item_address::<S>(address);
+
+            if calculated_length_crc != length_crc || next_item_address > end_address {
                 if retry {
                     return Err(Error::Corrupted {
                         #[cfg(feature = "_test")]
@@ -107,16 +116,6 @@ impl ItemHeader {
             },
         };
 
-        if header.next_item_address::<S>(address) > end_address {
-            // We have a header here that's claims it's larger than is possible
-            // This is never written. So either it's a bug or there's a CRC collision
-            // Let's assume the latter
-            return Err(Error::Corrupted {
-                #[cfg(feature = "_test")]
-                backtrace: std::backtrace::Backtrace::capture(),
-            });
-        }
-
         Ok(Some(header))
     }
 
-- 
2.43.0


From d473c8f6157f7d18a1ccf924d891b30832d749cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:32 +0000
Subject: [PATCH 09/25] fix: don't let the next item complete a partially
 written header

---
 src/item.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/item.rs b/src/item.rs
index fdd9681..9b0ad0e 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -646,6 +646,7 @@ impl ItemHeaderIter {
         flash: &mut S,
         callback: impl Fn(&ItemHeader, u32) -> bool,
     ) -> Result<(Option<ItemHeader>, u32), Error<S::Error>> {
+        let mut corrupted_header_end = 0;
         loop {
             match ItemHeader::read_new(flash, self.current_address, self.end_address).await {
                 Ok(Some(header)) => {
@@ -659,9 +660,13 @@ impl ItemHeaderIter {
                     }
                 }
                 Ok(None) => {
+                    // Stay clear of a header that was only partially written.
+                    // The first bytes of a next item must not be able to complete it.
+                    self.current_address = self.current_address.max(corrupted_header_end);
                     return Ok((None, self.current_address));
                 }
                 Err(Error::Corrupted { .. }) => {
+                    corrupted_header_end = ItemHeader::data_address::<S>(self.current_address);
                     self.current_address += S::WORD_SIZE as u32;
                 }
                 Err(e) => return Err(e),
-- 
2.43.0


From 0063a9acaf40ed63a16e545907ea2b2946965fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:26 +0000
Subject: [PATCH 10/25] fix: don't bring back items from a page whose erase in
 a map repair was interrupted

---
 src/lib.rs | 29 +++++++++++++++++++++++
 src/map.rs | 69 ++++++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 88 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a44b968..0e9de1c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -272,6 +272,35 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         Ok(())
     }
 
+    /// Make sure there's nothing written on the given page. If there is, then the page is erased.
+    ///
+    /// A page that is in the open state can still have data on it when an erase got interrupted.
+    async fn clean_open_page(&mut self, page_index: usize) -> Result<(), Error<S::Error>> {
+        let page_end_address =
+            calculate_page_end_address::<S>(self.flash_range.clone(), page_index);
+        let mut address = calculate_page_address::<S>(self.flash_range.clone(), page_index);
+        let mut buffer = [0; MAX_WORD_SIZE];
+
+        while address < page_end_address {
+            self.flash
+                .read(address, &mut buffer[..S::WORD_SIZE])
+                .await
+                .map_err(|e| Error::Storage {
+                    value: e,
+                    #[cfg(feature = "_test")]
+                    backtrace: std::backtrace::Backtrace::capture(),
+                })?;
+
+            if buffer[..S::WORD_SIZE].iter().any(|byte| *byte != 0xFF) {
+                return self.open_page(page_index).await;
+            }
+
+            address += S::WORD_SIZE as u32;
+        }
+
+        Ok(())
+    }
+
     /// Fully closes a page by writing both the start and end marker
     async fn close_page(&mut self, page_index: usize) -> Result<(), Error<S::Error>> {
         let current_state = self.partial_close_page(page_index).await?;
diff --git a/src/map.rs b/src/map.rs
index 18a7e25..00abd00 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -456,12 +456,23 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 return Err(Error::FullStorage);
             }
 
+            let mut first_open_page = None;
+            let mut partial_open_page = None;
+            for page_index in self.inner.get_pages(0) {
+                match self.inner.get_page_state_cached(page_index).await? {
+                    PageState::PartialOpen => {
+                        partial_open_page = Some(page_index);
+                        break;
+                    }
+                    PageState::Open if first_open_page.is_none() => {
+                        first_open_page = Some(page_index);
+                    }
+                    _ => {}
+                }
+            }
+
             // If there is a partial open page, we try to write in that first if there is enough space
-            let next_page_to_use = if let Some(partial_open_page) = self
-                .inner
-                .find_first_page(0, PageState::PartialOpen)
-                .await?
-            {
+            let next_page_to_use = if let Some(partial_open_page) = partial_open_page {
                 // We found a partial open page, but at this point it's relatively cheap to do a consistency check
                 if !self
                     .inner
@@ -567,8 +578,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 }
             } else {
                 // There's no partial open page, so we just gotta turn the first open page into a partial open one
-                let Some(first_open_page) = self.inner.find_first_page(0, PageState::Open).await?
-                else {
+                let Some(first_open_page) = first_open_page else {
                     // Uh oh, no open pages.
                     // Something has gone wrong.
                     // We should never get here.
@@ -578,6 +588,17 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                     });
                 };
 
+                if !self
+                    .inner
+                    .get_page_state_cached(self.inner.next_page(first_open_page))
+                    .await?
+                    .is_open()
+                {
+                    // The next page is in use, so this page may be a partial open page a repair started to erase.
+                    // If that erase got interrupted, there can still be old data on the page.
+                    self.inner.clean_open_page(first_open_page).await?;
+                }
+
                 self.inner.partial_close_page(first_open_page).await?;
             }
 
@@ -681,10 +702,25 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
                 // If there's no closed pages, we only have open pages,
                 // so we can fall back to just the 0 index after which the rest of the logic should work fine.
-                self.inner
+                let last_used_page = self
+                    .inner
                     .find_last_page(0, PageState::Closed)
                     .await?
-                    .unwrap_or_default()
+                    .unwrap_or_default();
+
+                if let Some(first_open_page) =
+                    self.inner.find_first_page(0, PageState::Open).await?
+                {
+                    // This page is going to be used next and it may be a partial open page a repair started to erase.
+                    // If that erase got interrupted, there can still be items on the page. They're copies of
+                    // what is on the next page and must not be revived after the originals are removed.
+                    let next_page = self.inner.next_page(first_open_page);
+                    if !self.inner.get_page_state_cached(next_page).await?.is_open() {
+                        self.inner.clean_open_page(first_open_page).await?;
+                    }
+                }
+
+                last_used_page
             }
         };
 
@@ -871,11 +907,24 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             repair = self.try_repair(data_buffer).await?
         )?;
 
-        let start_address =
+        let first_page_state = self.inner.get_page_state_cached(first_page).await;
+        if let Err(e @ Error::Storage { .. }) = first_page_state {
+            return Err(e);
+        }
+
+        let mut start_address =
             calculate_page_address::<S>(self.flash_range(), first_page) + S::WORD_SIZE as u32;
         let end_address =
             calculate_page_end_address::<S>(self.flash_range(), first_page) - S::WORD_SIZE as u32;
 
+        if !matches!(
+            first_page_state,
+            Ok(PageState::Closed | PageState::PartialOpen)
+        ) {
+            // There are no items here, at most leftovers from an interrupted erase
+            start_address = end_address;
+        }
+
         Ok(MapItemIter {
             storage: self,
             first_page,
-- 
2.43.0


From 4fb6699f0edfba2992692b1355d9f370a8f688f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:31 +0000
Subject: [PATCH 11/25] fix: report what really fits in find_max_fit

---
 src/queue/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 46ca41c..cc6ec4d 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -353,20 +353,33 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         let current_page = self.find_youngest_page().await?;
 
+        // The most that fits on a page that's empty
+        let max_item_size =
+            ItemHeader::available_data_bytes::<S>(calculate_page_size::<S>() as u32)
+                .map(|size| size.min(u16::MAX as u32));
+
         // Check if we have space on the next page
         let next_page = self.inner.next_page(current_page);
-        match self.inner.get_page_state_cached(next_page).await? {
-            state @ PageState::Closed => {
-                if self.inner.is_page_empty(next_page, Some(state)).await? {
+        let single_page = next_page == current_page;
+        match (
+            self.inner.get_page_state_cached(next_page).await?,
+            single_page,
+        ) {
+            (PageState::Closed, _) | (PageState::PartialOpen, true) => {
+                if self
+                    .inner
+                    .is_page_empty(next_page, Some(PageState::Closed))
+                    .await?
+                {
                     self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                    return Ok(max_item_size);
                 }
             }
-            PageState::Open => {
+            (PageState::Open, _) => {
                 self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                return Ok(max_item_size);
             }
-            PageState::PartialOpen => {
+            (PageState::PartialOpen, false) => {
                 // This should never happen
                 return Err(Error::Corrupted {
                     #[cfg(feature = "_test")]
@@ -398,9 +411,10 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
-            page_data_end_address - next_item_address,
-        ))
+        Ok(
+            ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
+                .map(|size| size.min(u16::MAX as u32)),
+        )
     }
 
     /// Calculate how much space is left free in the queue (in bytes).
-- 
2.43.0


From b843d2467bdd4fc105378ab0c4fcd0b7afd1f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:55 +0000
Subject: [PATCH 12/25] fix: reuse the page of a single-page queue once all its
 items are popped

A push that isn't allowed to overwrite old data kept reporting a full
storage forever, because a partial open page was never seen as empty.
---
 src/queue/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index cc6ec4d..cd1c7a5 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -230,10 +230,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         calculate_page_address::<S>(self.flash_range(), next_page)
                             + S::WORD_SIZE as u32;
 
+                    // With a single page, the page is partial open.
+                    // We tell it's closed so the items on it are checked.
                     if !allow_overwrite_old_data
                         && !self
                             .inner
-                            .is_page_empty(next_page, Some(next_page_state))
+                            .is_page_empty(next_page, Some(PageState::Closed))
                             .await?
                     {
                         self.inner.cache.unmark_dirty();
-- 
2.43.0


From 3d96ab2bdc3d35a36d209cf4dc827cd51646999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:05 +0000
Subject: [PATCH 13/25] fix: make an interrupted erase of a single-page queue
 recoverable

The page was erased while partial open. When that erase got interrupted, the
page looked open and the leftovers on it were taken for items.
Close the page first, just like with multiple pages, so that the page is
seen as half-erased and gets repaired.
---
 src/cache/page_states.rs |  4 ++++
 src/queue/mod.rs         | 13 +++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cache/page_states.rs b/src/cache/page_states.rs
index eb3eab1..59ad247 100644
--- a/src/cache/page_states.rs
+++ b/src/cache/page_states.rs
@@ -157,6 +157,10 @@ impl SealedPageStatesCache for CalculatedPageStates {
                     Some(PageState::Closed) => {
                         // We've rediscovered ourselves and that's great
                     }
+                    Some(PageState::PartialOpen) if self.page_count == 1 => {
+                        // There's no other page that could be the anchor now
+                        *self = Self::new(self.page_count);
+                    }
                     Some(PageState::PartialOpen) => {
                         let anchor = self.anchor.as_mut().unwrap();
                         // The anchor moves one up
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index cd1c7a5..84eb2f6 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -242,8 +242,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         return Err(Error::FullStorage);
                     }
 
-                    self.inner.open_page(next_page).await?;
-                    if !single_page {
+                    if single_page {
+                        // Close the page first so that a half-done erase can be recognized
+                        self.inner.close_page(current_page).await?;
+                        self.inner.open_page(next_page).await?;
+                    } else {
+                        self.inner.open_page(next_page).await?;
                         self.inner.close_page(current_page).await?;
                     }
                     self.inner.partial_close_page(next_page).await?;
@@ -531,6 +535,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             return Ok(first_open_page);
         }
 
+        if self.inner.page_count().get() == 1 {
+            // The only page is closed right before it's erased, so we could've been interrupted there
+            return Ok(0);
+        }
+
         // All pages are closed... This is not correct.
         Err(Error::Corrupted {
             #[cfg(feature = "_test")]
-- 
2.43.0


From a7ac78a07431185458bbb990814276cd782b463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:12 +0000
Subject: [PATCH 14/25] fix: only count an item as popped once it's erased in
 flash

When the pop of an iterator entry failed and the iteration was continued, the
page with the unpopped item could get erased.
---
 src/queue/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 84eb2f6..54c5f25 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -869,11 +869,6 @@ impl<'d, S: NorFlash, CI: CacheImpl<()>> QueueIteratorEntry<'_, 'd, '_, S, CI> {
     {
         let (header, item_data_buffer) = self.item.header_and_data_owned();
 
-        // We're popping ourself, so if all previous but us were popped, then now all are popped again
-        if self.iter.previous_item_states == PreviousItemStates::AllButCurrentPopped {
-            self.iter.previous_item_states = PreviousItemStates::AllPopped;
-        }
-
         header
             .erase_data(
                 &mut self.iter.storage.inner.flash,
@@ -883,6 +878,11 @@ impl<'d, S: NorFlash, CI: CacheImpl<()>> QueueIteratorEntry<'_, 'd, '_, S, CI> {
             )
             .await?;
 
+        // We're popping ourself, so if all previous but us were popped, then now all are popped again
+        if self.iter.previous_item_states == PreviousItemStates::AllButCurrentPopped {
+            self.iter.previous_item_states = PreviousItemStates::AllPopped;
+        }
+
         self.iter.storage.inner.cache.unmark_dirty();
         Ok(item_data_buffer)
     }
-- 
2.43.0


From d143361c9200834ff4ba579b8d33216f0bfaf410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 15/25] fix: count the only page as free in space_left when
 it's popped empty

A push can then reuse the whole page and find_max_fit already reports so.
---
 src/queue/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 54c5f25..dbe5725 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -482,10 +482,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                 }
             };
 
-            if ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
-                .is_none()
+            if self.inner.page_count().get() == 1
+                || ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
+                    .is_none()
             {
-                // No data fits on this partial open page anymore.
+                // No data fits on this partial open page anymore (or it's the only page, so it's up for reuse).
                 // So if all data on this is already erased, then this page might as well be counted as empty.
                 // We can use [is_page_empty] and lie to to it so it checks the items.
                 if self
-- 
2.43.0


From 829e24e98d468dc738e3f2e491217f93be3716ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 16/25] fix: don't skip an item when an interrupt evicts the
 one being drained

---
 src/queue/buffered.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..adcda8b 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -47,6 +47,8 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// Total number of items that were ever discarded (wrapping). Identifies the oldest item.
+    discard_count: usize,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -58,6 +60,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            discard_count: 0,
         }
     }
 
@@ -146,6 +149,7 @@ impl<const N: usize> RamRing<N> {
             self.read_pos = (self.read_pos + 2 + len) % N;
             self.used -= 2 + len;
             self.item_count -= 1;
+            self.discard_count = self.discard_count.wrapping_add(1);
         }
     }
 
@@ -440,14 +444,22 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
+        let (len, discard_count) = self.ring.lock(|r| {
+            let ring = r.borrow();
+            (ring.peek_into(scratch).map(|s| s.len()), ring.discard_count)
+        });
         let Some(len) = len else {
             return Ok(false);
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut ring = r.borrow_mut();
+            // An enqueue may already have evicted the item while it was written to flash.
+            // In that case the oldest item is another one that must not be lost.
+            if ring.discard_count == discard_count {
+                ring.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From 30765241c6e5219d42c721d447851ded41f2fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 17/25] fix: report a too small buffer in the buffered queue
 instead of an empty queue

---
 src/queue/buffered.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index adcda8b..c0ec849 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -255,7 +255,10 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
         let Some(data) = self.ram.peek_into(scratch) else {
-            return Ok(false);
+            return match self.ram.oldest_len() {
+                Some(len) => Err(Error::BufferTooSmall(len)),
+                None => Ok(false),
+            };
         };
         let len = data.len();
         self.storage.push(&scratch[..len], allow_overwrite).await?;
@@ -296,7 +299,10 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
             self.ram.discard_oldest();
             return Ok(Some(&mut data_buffer[..len]));
         }
-        Ok(None)
+        match self.ram.oldest_len() {
+            Some(len) => Err(Error::BufferTooSmall(len)),
+            None => Ok(None),
+        }
     }
 
     /// Peek at the oldest item without removing it.
@@ -319,7 +325,10 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        Ok(None)
+        match self.ram.oldest_len() {
+            Some(len) => Err(Error::BufferTooSmall(len)),
+            None => Ok(None),
+        }
     }
 
     /// Total capacity of the RAM ring in bytes (including 2-byte per-item length prefixes).
@@ -501,11 +510,18 @@ impl<const N: usize> SharedRamRing<N> {
         data_buffer: &'d mut [u8],
         allow_overwrite: bool,
     ) -> Result<Option<&'d mut [u8]>, Error<S::Error>> {
+        let mut needed_len = None;
         if self.ram_pending_count() > 0 {
-            self.drain_all(storage, data_buffer, allow_overwrite)
-                .await?;
+            match self.drain_all(storage, data_buffer, allow_overwrite).await {
+                // The item stays in the ring. Only a problem if there's no older item in flash.
+                Err(Error::BufferTooSmall(len)) => needed_len = Some(len),
+                result => result?,
+            }
+        }
+        match (storage.pop(data_buffer).await?, needed_len) {
+            (None, Some(len)) => Err(Error::BufferTooSmall(len)),
+            (item, _) => Ok(item),
         }
-        storage.pop(data_buffer).await
     }
 
     /// Peek at the oldest item without removing it (drains ring to flash first).
@@ -515,11 +531,18 @@ impl<const N: usize> SharedRamRing<N> {
         data_buffer: &'d mut [u8],
         allow_overwrite: bool,
     ) -> Result<Option<&'d mut [u8]>, Error<S::Error>> {
+        let mut needed_len = None;
         if self.ram_pending_count() > 0 {
-            self.drain_all(storage, data_buffer, allow_overwrite)
-                .await?;
+            match self.drain_all(storage, data_buffer, allow_overwrite).await {
+                // The item stays in the ring. Only a problem if there's no older item in flash.
+                Err(Error::BufferTooSmall(len)) => needed_len = Some(len),
+                result => result?,
+            }
+        }
+        match (storage.peek(data_buffer).await?, needed_len) {
+            (None, Some(len)) => Err(Error::BufferTooSmall(len)),
+            (item, _) => Ok(item),
         }
-        storage.peek(data_buffer).await
     }
 
     // ── Introspection ─────────────────────────────────────────────────────────
-- 
2.43.0


From 33bb98258ee11df12a2a18307319f4eb9e2b6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:35 +0000
Subject: [PATCH 18/25] fix: let SharedRamRing pop and peek items when the
 flash is full

---
 src/queue/buffered.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index c0ec849..7c0697b 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -510,16 +510,18 @@ impl<const N: usize> SharedRamRing<N> {
         data_buffer: &'d mut [u8],
         allow_overwrite: bool,
     ) -> Result<Option<&'d mut [u8]>, Error<S::Error>> {
-        let mut needed_len = None;
+        let mut drain_error = None;
         if self.ram_pending_count() > 0 {
             match self.drain_all(storage, data_buffer, allow_overwrite).await {
                 // The item stays in the ring. Only a problem if there's no older item in flash.
-                Err(Error::BufferTooSmall(len)) => needed_len = Some(len),
+                Err(error @ (Error::BufferTooSmall(_) | Error::FullStorage)) => {
+                    drain_error = Some(error);
+                }
                 result => result?,
             }
         }
-        match (storage.pop(data_buffer).await?, needed_len) {
-            (None, Some(len)) => Err(Error::BufferTooSmall(len)),
+        match (storage.pop(data_buffer).await?, drain_error) {
+            (None, Some(error)) => Err(error),
             (item, _) => Ok(item),
         }
     }
@@ -531,16 +533,18 @@ impl<const N: usize> SharedRamRing<N> {
         data_buffer: &'d mut [u8],
         allow_overwrite: bool,
     ) -> Result<Option<&'d mut [u8]>, Error<S::Error>> {
-        let mut needed_len = None;
+        let mut drain_error = None;
         if self.ram_pending_count() > 0 {
             match self.drain_all(storage, data_buffer, allow_overwrite).await {
                 // The item stays in the ring. Only a problem if there's no older item in flash.
-                Err(Error::BufferTooSmall(len)) => needed_len = Some(len),
+                Err(error @ (Error::BufferTooSmall(_) | Error::FullStorage)) => {
+                    drain_error = Some(error);
+                }
                 result => result?,
             }
         }
-        match (storage.peek(data_buffer).await?, needed_len) {
-            (None, Some(len)) => Err(Error::BufferTooSmall(len)),
+        match (storage.peek(data_buffer).await?, drain_error) {
+            (None, Some(error)) => Err(error),
             (item, _) => Ok(item),
         }
     }
-- 
2.43.0


From aaa84b7a71056c8158d3a970e61f3bae100d8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 19/25] fix: don't panic with a key pointer cache without
 entries

---
 src/cache/key_pointers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 726eec1..d739403 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -131,6 +131,10 @@ pub(crate) struct TrackedKeyPointers<'a, KEY: Eq> {
 impl<'a, KEY: Eq> TrackedKeyPointers<'a, KEY> {
     fn insert_front(&mut self, value: (KEY, NonZeroU32)) {
         let len = self.key_pointers.len();
+        if len == 0 {
+            // A cache without entries has nothing to remember
+            return;
+        }
         self.key_pointers[len - 1] = Some(value);
         move_to_front(self.key_pointers, len - 1);
     }
-- 
2.43.0


From 25c0ca5dc4dbeeba2a18615c8f6b6b20d40de6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 20/25] fix: report a too small scratch buffer in
 SharedRamRing::drain_one instead of an empty ring

---
 src/queue/buffered.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index 7c0697b..539d90a 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -453,12 +453,19 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let (len, discard_count) = self.ring.lock(|r| {
+        let (oldest_len, len, discard_count) = self.ring.lock(|r| {
             let ring = r.borrow();
-            (ring.peek_into(scratch).map(|s| s.len()), ring.discard_count)
+            (
+                ring.oldest_len(),
+                ring.peek_into(scratch).map(|s| s.len()),
+                ring.discard_count,
+            )
         });
         let Some(len) = len else {
-            return Ok(false);
+            return match oldest_len {
+                Some(len) => Err(Error::BufferTooSmall(len)),
+                None => Ok(false),
+            };
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
         self.ring.lock(|r| {
-- 
2.43.0


From 0bb341cb34a52aa443ef274f125b2753b9b47911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 21/25] fix: report a short buffer as such when a heapless
 string key is serialized

---
 src/heapless_09_impl.rs | 2 +-
 src/heapless_impl.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapless_09_impl.rs b/src/heapless_09_impl.rs
index 43d11d6..49490ec 100644
--- a/src/heapless_09_impl.rs
+++ b/src/heapless_09_impl.rs
@@ -77,7 +77,7 @@ impl<LenType: heapless_09::LenType, const CAP: usize> Key for String<CAP, LenTyp
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
diff --git a/src/heapless_impl.rs b/src/heapless_impl.rs
index d22d487..b5dcc4b 100644
--- a/src/heapless_impl.rs
+++ b/src/heapless_impl.rs
@@ -78,7 +78,7 @@ impl<const CAP: usize> Key for String<CAP> {
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
-- 
2.43.0


From c32344a426d716b7af4ecb2c6c8b9ce95bdb434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:09 +0000
Subject: [PATCH 22/25] fix: count the space of the only page in space_left
 when an overwriting push was interrupted

---
 src/queue/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index dbe5725..5d28830 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -450,7 +450,8 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             let state = self.inner.get_page_state_cached(page).await?;
             let page_empty = self.inner.is_page_empty(page, Some(state)).await?;
 
-            if state.is_closed() && !page_empty {
+            // When the only page is marked as closed, an overwriting push didn't get to reuse it. Pushes still go there.
+            if state.is_closed() && !page_empty && self.inner.page_count().get() > 1 {
                 continue;
             }
 
-- 
2.43.0


From 5c93e2f81ceaa708fc18f345df0a1ca38ff9574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 23/25] fix: don't take the misread rest of a torn header for
 the end of the items

---
 src/item.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index 9b0ad0e..bed191b 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -662,7 +662,11 @@ impl ItemHeaderIter {
                 Ok(None) => {
                     // Stay clear of a header that was only partially written.
                     // The first bytes of a next item must not be able to complete it.
-                    self.current_address = self.current_address.max(corrupted_header_end);
+                    // And if there are items already, they start behind it as well.
+                    if self.current_address < corrupted_header_end {
+                        self.current_address = corrupted_header_end;
+                        continue;
+                    }
                     return Ok((None, self.current_address));
                 }
                 Err(Error::Corrupted { .. }) => {
-- 
2.43.0


From 36bb1cf782464b77e5ff8f546898b3e08e14392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 24/25] fix: the size of a damaged item header could overflow
 an address

---
 src/item.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index bed191b..3d5a391 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -228,7 +228,8 @@ impl ItemHeader {
     /// Get the location of the next item in flash
     pub(crate) const fn next_item_address<S: NorFlash>(&self, address: u32) -> u32 {
         let data_address = ItemHeader::data_address::<S>(address);
-        data_address + round_up_to_alignment::<S>(self.length as u32)
+        // The length may be any value when the header is damaged
+        data_address.saturating_add(round_up_to_alignment::<S>(self.length as u32))
     }
 
     /// Calculates the amount of bytes available for data.
-- 
2.43.0


From 497bb89f954cbcebf98850941bdb94c14eeed0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 25/25] fix: continue a map iteration at the item that could
 not be read

When reading an item fails, is cancelled or gets a buffer that is too
small, the iterator was already past that item. A call of next after that
silently skipped it, which in a map means that an older value of the key or
none at all is found. The queue iterator already tries the item again.
---
 src/item.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 3d5a391..a85e1db 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -601,10 +601,16 @@ impl ItemIter {
         let mut data_buffer = Some(data_buffer);
         while let (Some(header), address) = self.header.next(flash).await? {
             let buffer = data_buffer.take().unwrap();
-            match header
+
+            // The item only counts as visited once it has been read.
+            // If that fails or is cancelled, the next call has to try it again instead of skipping it.
+            let next_address = core::mem::replace(&mut self.header.current_address, address);
+            let item = header
                 .read_item(flash, buffer, address, self.header.end_address)
-                .await?
-            {
+                .await?;
+            self.header.current_address = next_address;
+
+            match item {
                 MaybeItem::Corrupted(_, buffer) | MaybeItem::Erased(_, buffer) => {
                     data_buffer.replace(buffer);
                 }
-- 
2.43.0

