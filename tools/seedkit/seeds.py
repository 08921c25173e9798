M="src/map.rs"; L="src/lib.rs"; I="src/item.rs"; Q="src/queue/mod.rs"; B="src/queue/buffered.rs"
CM="src/cache/mod.rs"; PP="src/cache/page_pointers.rs"; KP="src/cache/key_pointers.rs"; PS="src/cache/page_states.rs"
SEEDS=[]
def s(id, prop, edits, needs, breaks): SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks))

s("remove-anchor","P04",[(L,'''                last_page_index = Some(page_index);
            } else {
                if last_page_index.is_some() {
                    return Ok(last_page_index);
                }
            }''','''                last_page_index = Some(page_index);
            }''')],
 "a map that has wrapped around, power loss right after a page was closed, then a removal interrupted after it removed the newest version",
 "an older value of the removed key comes back")

s("clean-close","P03",[(CM,'''        if dirty {
            self.mark_dirty();
        }
        self.page_states.notice_page_state''','''        if dirty && !new_state.is_closed() {
            self.mark_dirty();
        }
        self.page_states.notice_page_state''')],
 "a flash error exactly when a full page's end marker is written, with a page state cache that is used on",
 "the cache believes the page closed although it is not")

s("empty-items-free","P10",[(I,'''                .traverse(&mut self.flash, |header, _| header.crc.is_none())
                .await?
                .0
                .is_none())''','''                .traverse(&mut self.flash, |header, _| {
                    header.crc.is_none() || header.length == 0
                })
                .await?
                .0
                .is_none())''')],
 "a page on which only zero-length items are left when the queue is full",
 "a push without permission erases a page with unpopped (empty) items")

s("erased-pointer-jump","P12",[(PP,'''        if item_address == next_unerased_item {''','''        if item_address >= next_unerased_item {''')],
 "popping out of order through the iterator with a page pointer cache, then reading with the same instance",
 "unpopped older items are skipped only if the cache is present")

s("thin-marker","P16",[(L,'''const HALF_MARKER_BITS: u32 = 4;''','''const HALF_MARKER_BITS: u32 = 1;''')],
 "one flipped bit in the marker word of an open page",
 "the page counts as used, the storage is taken for corrupt or data lands elsewhere")

s("resync-by-header","P16",[(I,'''                    self.current_address += S::WORD_SIZE as u32;
                }
                Err(e) => return Err(e),''','''                    self.current_address = ItemHeader::data_address::<S>(self.current_address);
                }
                Err(e) => return Err(e),''')],
 "a damaged length field of an item whose padded length is not a multiple of the header size",
 "the search for the next header steps over it, so damage to one item hides the next")

s("early-discard","P19",[(B,'''        self.storage.push(&scratch[..len], allow_overwrite).await?;
        self.ram.discard_oldest();
        Ok(true)''','''        self.ram.discard_oldest();
        self.storage.push(&scratch[..len], allow_overwrite).await?;
        Ok(true)''')],
 "a drain that fails or is dropped half-way",
 "the item being drained is lost")

s("signal-first-only","P20",[(B,'''        if result.is_ok() {
            self.signal.signal(());
        }''','''        // The drain task empties the ring once it runs, so only the first item has to wake it
        if result.is_ok() && self.ram_pending_count() == 1 {
            self.signal.signal(());
        }''')],
 "an enqueue while items are left behind by a failed drain, or a second interrupt between enqueue and the check",
 "the waiting drain task is not woken")

s("half-erased-open","P08",[(L,'''            // Probably an interrupted erase
            (false, true) => {
                return Err(Error::Corrupted {
                    #[cfg(feature = "_test")]
                    backtrace: std::backtrace::Backtrace::capture(),
                });
            }
            (false, false) => PageState::Open,''','''            // An interrupted erase is redone before the page is used
            (false, _) => PageState::Open,''')],
 "power loss inside a page erase after the first word",
 "the half-erased page is used as if it were empty; its old content comes back or new items are destroyed")

s("narrow-overhead","P18",[(M,'''                        > calculate_page_size::<S>()
                            .saturating_sub(ItemHeader::data_address::<S>(0) as usize)
                {
                    self.inner.cache.unmark_dirty();
                    return Err(Error::ItemTooBig);''','''                        > calculate_page_size::<S>().saturating_sub(8)
                {
                    self.inner.cache.unmark_dirty();
                    return Err(Error::ItemTooBig);''')],
 "flash words larger than 8 bytes and an item slightly larger than fits on a page",
 "instead of ItemTooBig all pages are recycled and FullStorage returned")

s("crc-fold","P21",[(I,'''            NonZeroU32::new(value ^ 1).unwrap()''','''            NonZeroU32::new(value ^ 0x80).unwrap()''')],
 "an item whose checksum ends in 00 or FF written by one version and read by the other",
 "about 1 in 128 items of an existing storage are unreadable after the update")

s("advance-before-read","P09",[(Q,'''                let maybe_item = found_item_header
                    .read_item(''','''                let next_address = found_item_header.next_item_address::<S>(found_item_address);
                self.next_address = if next_address >= page_data_end_address {
                    NextAddress::PageAfter(current_page)
                } else {
                    NextAddress::Address(next_address)
                };

                let maybe_item = found_item_header
                    .read_item(''')],
 "a flash error while an item's data is read by an iterator that is used on",
 "the item is skipped and, if nothing older is left, its page erased")

s("iter-from-zero","P05",[(M,'''                                // The previous page is closed, so the first_open_page is what we want
                                Ok(first_open_page)''','''                                // The previous page is closed, so there are items to be found
                                Ok(0)''')],
 "an interruption right after a page was closed, in a map that has wrapped around",
 "items are iterated in the wrong order, so the last value seen for a key is not the current one")

s("resume-migration","P14",[(M,'''                // To do that, we erase the partial open page first because it contains incomplete data.
                self.inner.open_page(partial_open_page).await?;
''','''                // To do that, we erase the partial open page first if it contains incomplete data.
                let start = calculate_page_address::<S>(self.flash_range(), partial_open_page)
                    + S::WORD_SIZE as u32;
                let end = calculate_page_end_address::<S>(self.flash_range(), partial_open_page)
                    - S::WORD_SIZE as u32;
                if ItemHeaderIter::new(start, end)
                    .next(&mut self.inner.flash)
                    .await?
                    .0
                    .is_some()
                {
                    self.inner.open_page(partial_open_page).await?;
                }
''')],
 "power loss in the middle of the header of the first item that is migrated",
 "the migrated item is programmed over the torn header, which the flash does not permit")

s("copy-per-version","P06",[(M,'''            if found_address == item_address {
                self.inner''','''            // Only what is on a later page already doesn't have to move
            let found_page = calculate_page_index::<S>(self.flash_range(), found_address);
            if found_page == source_page || found_page == target_page {
                self.inner''')],
 "several versions of one key on the page that is recycled and a map that is nearly full",
 "obsolete versions take up space again and again, so stores that fit are refused as full")

s("page-wise-popped","P07",[(Q,'''                    self.next_address = NextAddress::Address(current_address);

                    (next_page, current_address)''','''                    self.next_address = NextAddress::Address(current_address);
                    // Every page is judged on its own
                    self.previous_item_states = PreviousItemStates::AllPopped;

                    (next_page, current_address)''')],
 "an iteration over at least three pages that leaves an item on one page and pops everything on the next",
 "a page in the middle of the queue is erased and the items behind it are not found anymore")

s("query-trusts-cache","P11",[(Q,'''    async fn find_max_fit_inner(&mut self) -> Result<Option<u32>, Error<S::Error>> {
        if self.inner.cache.is_dirty() {
            self.inner.cache.invalidate_cache_state();
        }

''','''    async fn find_max_fit_inner(&mut self) -> Result<Option<u32>, Error<S::Error>> {
''')],
 "a push or pop that fails half-way, with a cache, then find_max_fit on the same instance",
 "the reported size is not the one that can be pushed")

s("generic-unrepaired","P13",[(M,'''        run_with_auto_repair!(
            function = self.store_item_inner::<V>(data_buffer, key, item).await,
            repair = self.try_repair(data_buffer).await?
        )''','''        self.store_item_inner::<V>(data_buffer, key, item).await''')],
 "an interrupted migration or erase and store_item_generic as the first operation afterwards",
 "store_item_generic returns Corrupted")

s("erase-open-on-repair","P15",[(L,'''            if matches!(
                self.get_page_state(page_index).await,
                Err(Error::Corrupted { .. })
            ) {
                self.open_page(page_index).await?;
            }''','''            // The same goes for an open page, it may not be fully erased
            if matches!(
                self.get_page_state(page_index).await,
                Err(Error::Corrupted { .. }) | Ok(PageState::Open)
            ) {
                self.open_page(page_index).await?;
            }''')],
 "an interruption that needs a repair",
 "every repair erases all clean pages once more")

s("erase-twice-marked","P14",[(M,'''                    item::MaybeItem::Corrupted(_, _) | item::MaybeItem::Erased(_, _) => continue,
                    item::MaybeItem::Present(item) => {
                        let item_match''','''                    item::MaybeItem::Corrupted(_, _) => continue,
                    item::MaybeItem::Erased(header, _) => {
                        // Make sure that the mark is complete
                        if search_key.is_none() {
                            header
                                .erase_data(
                                    &mut self.inner.flash,
                                    self.inner.flash_range.clone(),
                                    &mut self.inner.cache,
                                    item_address,
                                )
                                .await?;
                        }
                    }
                    item::MaybeItem::Present(item) => {
                        let item_match''')],
 "remove_all_items in a map from which an item has already been removed",
 "a header is programmed a third time")

s("short-no-reread","P17",[(I,'''                let mut retry = false;
                loop {
                    if read_len != 0 {''','''                // A damaged short item isn't worth a second look
                let mut retry = read_len <= ItemHeader::LENGTH;
                loop {
                    if read_len != 0 {''')],
 "a read with a flipped bit in an item of at most 8 bytes",
 "the item is taken for corrupted: it is skipped by fetches and pops and dropped by migrations")

s("small-buffer-skips","P18",[(I,'''                if data_buffer.len() < read_len {
                    return Err(Error::BufferTooSmall(read_len));
                }''','''                if data_buffer.len() < self.length as usize {
                    return Err(Error::BufferTooSmall(read_len));
                }
                if data_buffer.len() < read_len {
                    // Can't have been written from a buffer like this
                    return Ok(MaybeItem::Corrupted(self, data_buffer));
                }''')],
 "a buffer that holds an item's data but not its padding, e.g. in a migration",
 "the item is skipped: None or an older value is returned and a migration drops it")

s("first-open-from-zero","P08",[(Q,'''                self.inner.find_first_page(anchor, PageState::Open).await?''','''                let _ = anchor;
                self.inner.find_first_page(0, PageState::Open).await?''')],
 "power loss right after a page was closed, while a page before the closed ones is open as well",
 "the next push goes to a page in front of the queue, so the order is lost")

s("quiet-open","P03",[(L,'''        self.cache
            .notice_page_state(page_index, PageState::Open, true);

        let page_address = calculate_page_address::<S>(self.flash_range.clone(), page_index);
        let page_end_address =''','''        // The page was in use, so the cache has been marked dirty before
        self.cache
            .notice_page_state(page_index, PageState::Open, false);

        let page_address = calculate_page_address::<S>(self.flash_range.clone(), page_index);
        let page_end_address =''')],
 "a flash error when a page is erased of which nothing had to be moved, with a page state cache that is used on",
 "the cache believes the page open although it is not, and it is programmed over")

s("array-key-needs-value","P22",[(M,'''    fn deserialize_from(buffer: &[u8]) -> Result<(Self, usize), SerializationError> {
        Ok((
            buffer
                .get(..N)''','''    fn deserialize_from(buffer: &[u8]) -> Result<(Self, usize), SerializationError> {
        Ok((
            buffer
                .get(..N)
                // There's always a value after the key
                .filter(|_| buffer.len() > N)''')],
 "a byte array as key, a value that takes no bytes and a buffer that is not longer than the key",
 "the item can be stored but fetches and migrations with that buffer fail from then on")

s("same-crc-skip","P01",[(I,'''fn adapted_crc32(data: &[u8]) -> NonZeroU32 {''','''pub(crate) fn adapted_crc32(data: &[u8]) -> NonZeroU32 {'''),
(M,'''                let free_spot_address = self
                    .inner
                    .find_next_free_item_spot(
                        page_data_start_address,''','''                // Spare the flash the long values that are stored already
                if item_data_length > 160 {
                    if let Some(address) = self.inner.cache.key_location(key) {
                        let page_index =
                            calculate_page_index::<S>(self.flash_range(), address);
                        let page_end =
                            calculate_page_end_address::<S>(self.flash_range(), page_index);
                        let known =
                            ItemHeader::read_new(&mut self.inner.flash, address, page_end).await?;
                        let data = &data_buffer[..item_data_length];
                        if known.is_some_and(|h| {
                            h.length as usize == item_data_length
                                && h.crc == Some(crate::item::adapted_crc32(data))
                        }) {
                            self.inner.cache.unmark_dirty();
                            return Ok(());
                        }
                    }
                }

                let free_spot_address = self
                    .inner
                    .find_next_free_item_spot(
                        page_data_start_address,''')],
 "a key pointer cache and two long values of one key that have the same length and checksum",
 "the second value is not stored although the store succeeds")

s("late-repair-mark","P02",[(M,'''                // Then partially close it again
                self.inner.partial_close_page(partial_open_page).await?;

                self.migrate_items(data_buffer, buffer_page, partial_open_page)
                    .await?;''','''                self.migrate_items(data_buffer, buffer_page, partial_open_page)
                    .await?;

                // Then partially close it again, now that it is complete
                self.inner.partial_close_page(partial_open_page).await?;''')],
 "power loss in a migration, and again in the repair of it between the erase of the source page and the mark of the target page",
 "values whose only copy was just moved are on a page that counts as open, and are lost")

s("data-first","P02",[(I,'''        cache.notice_item_written::<S>(flash_range, address, header);
        header.write(flash, address).await?;
''','''        cache.notice_item_written::<S>(flash_range, address, header);
'''),(I,'''        if !data_left.is_empty() {
            let mut buffer = AlignedBuf([0; MAX_WORD_SIZE]);
''','''        // The header makes the item valid, so it comes after the bulk of the data
        header.write(flash, address).await?;

        if !data_left.is_empty() {
            let mut buffer = AlignedBuf([0; MAX_WORD_SIZE]);
''')],
 "power loss in a store after the data block and before the header",
 "the next item is programmed over the data that is there already and gets damaged")

s("unpadded-need","P18",[(I,'''                    return Err(Error::BufferTooSmall(read_len));''','''                    return Err(Error::BufferTooSmall(self.length as usize));''')],
 "an item whose length is no multiple of the word size, and a caller that retries with a buffer of the reported size",
 "the reported size isn't sufficient, the retry reports the same size again")

s("exact-string-key","P22",[("src/heapless_09_impl.rs",'''        if buffer.len() < self.len() + 2 {
            return Err(SerializationError::BufferTooSmall);
        }

        buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
        buffer[2..][..self.len()].copy_from_slice(self.as_bytes());''','''        if buffer.len() <= self.len() + 2 {
            return Err(SerializationError::BufferTooSmall);
        }

        buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
        buffer[2..][..self.len()].copy_from_slice(self.as_bytes());''')],
 "a heapless 0.9 string as key, a value that takes no bytes and a buffer that is just long enough",
 "the item is refused")

s("evict-then-refuse","P19",[(B,'''        if total > N {
            return Err(());
        }
        while self.used + total > N {
            self.discard_oldest();
        }
        self.write_raw(data);
        Ok(())''','''        while self.used > 0 && self.used + total > N {
            self.discard_oldest();
        }
        // Everything is gone and it still doesn't fit
        if self.used + total > N {
            return Err(());
        }
        self.write_raw(data);
        Ok(())''')],
 "an enqueue with DiscardOldest of an item that is larger than the whole ring, while items are waiting in it",
 "the refused enqueue discards every item that waits in RAM")

s("stale-wake","P20",[(B,'''        self.signal.wait().await;
    }''','''        // A signal may be left over from items that have been drained by now
        if self.ram_pending_count() == 0 {
            self.signal.reset();
        }
        self.signal.wait().await;
    }''')],
 "an interrupt that enqueues between the check of the ring and the reset of the signal",
 "the wake-up is lost and the drain task sleeps although an item is waiting")

s("clean-erase","P09",[(CM,'''        self.mark_dirty();
        self.page_pointers
            .notice_item_erased''','''        self.page_pointers
            .notice_item_erased''')],
 "a page pointer cache and a pop whose write fails or is cancelled",
 "the cache believes that the item is erased, so it's skipped from then on")

s("exact-fit-uncached","P12",[(I,'''            Some(free_item_address) => free_item_address,
            None => {''','''            // No room for more than a header
            Some(free_item_address)
                if end_address - free_item_address
                    <= ItemHeader::data_address::<S>(0) + S::WORD_SIZE as u32 =>
            {
                return Ok(None);
            }
            Some(free_item_address) => free_item_address,
            None => {''')],
 "a page pointer cache and an item of no more than a word for the last bytes of a page",
 "the queue is reported as full only if it has that cache")

s("string-length-order","P21",[("src/heapless_impl.rs",'''        buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
        buffer[2..][..self.len()].copy_from_slice(self.as_bytes());''','''        buffer[..2].copy_from_slice(&(self.len() as u16).to_be_bytes());
        buffer[2..][..self.len()].copy_from_slice(self.as_bytes());'''),("src/heapless_impl.rs",'''            .push_str(
                core::str::from_utf8(&buffer[2..][..data_len])
                    .map_err(|_| SerializationError::InvalidFormat)?,
            )
            .map_err(|_| SerializationError::InvalidFormat)?;

        Ok((output, total_len))
    }

    fn get_len(buffer: &[u8]) -> Result<usize, SerializationError> {
        if buffer.len() < 2 {
            return Err(SerializationError::BufferTooSmall);
        }

        let len = u16::from_le_bytes(buffer[..2].try_into().unwrap());''','''            .push_str(
                core::str::from_utf8(&buffer[2..][..data_len])
                    .map_err(|_| SerializationError::InvalidFormat)?,
            )
            .map_err(|_| SerializationError::InvalidFormat)?;

        Ok((output, total_len))
    }

    fn get_len(buffer: &[u8]) -> Result<usize, SerializationError> {
        if buffer.len() < 2 {
            return Err(SerializationError::BufferTooSmall);
        }

        let len = u16::from_be_bytes(buffer[..2].try_into().unwrap());''')],
 "a heapless string as key, written by an earlier release",
 "the stored length is read the wrong way round, so the items can't be read anymore")

s("stop-at-gap","P01",[(M,'''            // Go through all items on the page
            let mut item_headers =
                ItemHeaderIter::new(page_data_start_address, page_data_end_address);

            while let''','''            // Go through all items on the page
            let mut item_headers =
                ItemHeaderIter::new(page_data_start_address, page_data_end_address);
            let mut any = false;

            while let'''),(M,'''                        if item_match {
                            item.header''','''                        any = true;
                        if item_match {
                            item.header'''),(M,'''                                .await?;
                        }
                    }
                }
            }
        }

        // We're done''','''                                .await?;
                        }
                    }
                }
            }

            if search_key.is_none() && !any {
                // Nothing left on this page, so the removal was here before
                break;
            }
        }

        // We're done''')],
 "remove_all_items with a page in between of which all items were removed one by one",
 "the values on later pages stay")

s("halved-block","P14",[(I,'''        if !data_block.is_empty() {
            flash
                .write(data_address, data_block)
                .await
                .map_err(|e| Error::Storage {
                    value: e,
                    #[cfg(feature = "_test")]
                    backtrace: std::backtrace::Backtrace::capture(),
                })?;
        }
''','''        if !data_block.is_empty() {
            // Keep single transfers small
            let split = if data_block.len() > 256 {
                (data_block.len() / 2).next_multiple_of(4)
            } else {
                data_block.len()
            };
            let mut block_address = data_address;
            for block in [&data_block[..split], &data_block[split..]] {
                if block.is_empty() {
                    continue;
                }
                flash
                    .write(block_address, block)
                    .await
                    .map_err(|e| Error::Storage {
                        value: e,
                        #[cfg(feature = "_test")]
                        backtrace: std::backtrace::Backtrace::capture(),
                    })?;
                block_address += block.len() as u32;
            }
        }
''')],
 "an item of more than 256 bytes on a flash with write words of 8 bytes or more",
 "the second half is written at an address that is not a multiple of the write size")

s("query-unrepaired","P13",[(Q,'''        run_with_auto_repair!(
            function = self.find_max_fit_inner().await,
            repair = self.try_repair().await?
        )''','''        self.find_max_fit_inner().await''')],
 "find_max_fit as the first operation after power was lost while a page was erased",
 "find_max_fit returns Corrupted")

s("remove-from-zero","P04",[(M,'''        for page_index in self.inner.get_pages(self.inner.next_page(last_used_page)) {
            if self''','''        for page_index in self.inner.get_pages(0) {
            if self''')],
 "a map that has wrapped around, with versions of a key on several pages, and a removal of it that is interrupted",
 "an older value of the removed key comes back")

s("wrap-header","P19",[(B,'''        let mut pos = (self.read_pos + 2) % N;
        for b in buf[..len].iter_mut() {
            *b = self.buf[pos];
            pos = (pos + 1) % N;
        }
        Some(&buf[..len])''','''        let pos = self.read_pos + 2;
        let contiguous = len.min(N.saturating_sub(pos));
        buf[..contiguous].copy_from_slice(&self.buf[pos..][..contiguous]);
        buf[contiguous..len].copy_from_slice(&self.buf[..len - contiguous]);
        Some(&buf[..len])''')],
 "the length prefix of the oldest item in RAM being split by the end of the ring",
 "the item can't be read (panic)")

s("header-once","P17",[(I,'''        let mut retry = false;
        loop {
            flash
                .read(address, &mut buffer[..header_slice_len])''','''        // A header that is a single word is read at once
        let mut retry = header_slice_len == S::READ_SIZE;
        loop {
            flash
                .read(address, &mut buffer[..header_slice_len])''')],
 "a read word of 8 bytes or more and one disturbed read of a header",
 "the item is skipped although reading again would give the right header")

s("damage-ends-removal","P16",[(M,'''                    item::MaybeItem::Corrupted(_, _) | item::MaybeItem::Erased(_, _) => continue,
                    item::MaybeItem::Present(item) => {
                        let item_match''','''                    item::MaybeItem::Erased(_, _) => continue,
                    // What follows a torn write is not in use yet
                    item::MaybeItem::Corrupted(_, _) => break,
                    item::MaybeItem::Present(item) => {
                        let item_match''')],
 "an item whose data got damaged with items of other keys behind it, one of which is removed",
 "the removed key is still there, or an older value of it comes back")

s("nothing-freed-is-full","P06",[(M,'''                    self.migrate_items(data_buffer, next_buffer_page, next_page_to_use)
                        .await?;
                }''','''                    let freed = self
                        .migrate_items(data_buffer, next_buffer_page, next_page_to_use)
                        .await?;
                    if !freed && recursion_level > 0 {
                        // There is nothing obsolete left
                        self.inner.cache.unmark_dirty();
                        return Err(Error::FullStorage);
                    }
                }'''),(M,'''        source_page: usize,
        target_page: usize,
    ) -> Result<(), Error<S::Error>> {''','''        source_page: usize,
        target_page: usize,
    ) -> Result<bool, Error<S::Error>> {'''),(M,'''                next_page_write_address = found_item
                    .header
                    .next_item_address::<S>(next_page_write_address);
            }
        }

        self.inner.open_page(source_page).await?;

        Ok(())''','''                next_page_write_address = found_item
                    .header
                    .next_item_address::<S>(next_page_write_address);
            } else {
                freed = true;
            }
        }

        self.inner.open_page(source_page).await?;

        Ok(freed)'''),(M,'''        let mut next_page_write_address =
            calculate_page_address::<S>(self.flash_range(), target_page) + S::WORD_SIZE as u32;

        let mut it''','''        let mut next_page_write_address =
            calculate_page_address::<S>(self.flash_range(), target_page) + S::WORD_SIZE as u32;
        let mut freed = false;

        let mut it''')],
 "two pages in a row without obsolete items while there are obsolete items further on",
 "a store that fits is refused as full")

s("small-buffer-next","P19",[(B,'''        let flash_len = self.storage.pop(&mut *data_buffer).await?.map(|s| s.len());''','''        let flash_len = match self.storage.pop(&mut *data_buffer).await {
            // There may be something in RAM that does fit
            Err(Error::BufferTooSmall(_)) if self.ram.len() > 0 => None,
            result => result?.map(|s| s.len()),
        };''')],
 "a pop with a buffer that is too small for the oldest item in flash, but not for the oldest one in RAM",
 "the item in RAM overtakes those in flash")

s("zero-fit-is-none","P11",[(Q,'''                .traverse(&mut self.inner.flash, |_, _| true)
                .await?
                .1
            }
        };

        self.inner.cache.unmark_dirty();
        Ok(
''','''                .traverse(&mut self.inner.flash, |_, _| true)
                .await?
                .1
            }
        };

        self.inner.cache.unmark_dirty();
        if page_data_end_address - next_item_address <= Self::item_overhead_size() {
            // Not more than the header would fit
            return Ok(None);
        }
        Ok(
''')],
 "a full queue with exactly the size of an item header left on the last page",
 "None is reported although an empty item can be pushed")

s("blank-item-skipped","P22",[(I,'''                MaybeItem::Present(item) => {
                    return Ok(Some((item, address)));
                }''','''                // There's nothing in a blank item
                MaybeItem::Present(item) if item.header.length == 0 => {
                    data_buffer.replace(item.item_data_buffer);
                }
                MaybeItem::Present(item) => {
                    return Ok(Some((item, address)));
                }''')],
 "the unit key with an empty value",
 "the item can't be fetched and is not iterated")
