#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
L = "src/lib.rs"; M = "src/map.rs"; Q = "src/queue/mod.rs"; B = "src/queue/buffered.rs"; I = "src/item.rs"
CM = "src/cache/mod.rs"; PS = "src/cache/page_states.rs"; PP = "src/cache/page_pointers.rs"; KP = "src/cache/key_pointers.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("P01","Map returns the last stored value of every key, for any history",
 "In the absence of faults, fetching a key from a map returns exactly the value most recently stored under that key, and None if it was never stored or was removed, was cleared by remove_all_items or by erase_all since. This holds for every sequence of store, fetch, remove, remove-all, iterate and erase-all operations, across page wrap-arounds and restarts, whatever the flash geometry, page count, flash offset, cache configuration, key encoding and value sizes (including empty and maximum-size values).",
 ["histories","inputs","configurations"],"all operation histories x flash geometries (read/write/erase sizes, page counts, range offsets) x cache configurations x value sizes",
 "Unit tests run a few hand-written histories on two small geometries with one cache; migrations, wrap-around and key-version interplay depend on the whole history.",
 [M,I,L,CM],[("append at first free spot of the partial-open page",M+": store_item_inner"),("newest-first page search",M+": fetch_item_with_location"),("migration of live items before a page is erased",M+": migrate_items"),("removal of every version of a key",M+": remove_item_inner")],
 [("page state markers","which page is current",L+": get_page_state")],["MapStorage::fetch_item","MapStorage::fetch_all_items","MapStorage::store_item"])

p("P02","Map: acknowledged writes survive power loss at any byte; in-flight is atomic",
 "If power is lost at any byte of any flash program or erase during any map operation (including operations that are repairing the effects of an earlier power loss), then after restart every key whose last store or removal was acknowledged still reads back exactly that result, and the key being written reads either its previous value or the new one, never anything else. Whichever of the two is observed first after the restart stays the result until the key is written again.",
 ["crash_points","histories","configurations"],"all histories x crash points (every byte of every program/erase, repeatedly, also during recovery) x geometries x caches",
 "The tests contain two or three fixed shutoff scenarios, and the upstream fuzzer injects one shutoff per run on one geometry while keeping the same cache object; nested crashes, wide words and restarts with cold caches are not reached.",
 [M,I,L],[("header first, data after, both CRC protected",I+": write_raw/read_item"),("migration completes before the source page is erased",M+": migrate_items"),("interrupted migration detected and redone",M+": try_repair"),("half-erased pages detected by marker order and re-erased",L+": get_page_state/try_general_repair")],
 [("start/end page markers","survive torn erase/program",L)],["MapStorage::fetch_item after reopening on the surviving flash image"])

p("P03","Map: failed or cancelled operations do not corrupt the live instance",
 "If a flash access fails with an error, or the future of a map operation is dropped at any await point, and the same map instance with its cache keeps being used, then no acknowledged data of any key is lost or altered, and the key being written or removed holds its previous or its new value. The live instance and a freshly opened one agree on every key afterwards, and data acknowledged after the failure survives restarts as usual.",
 ["fault_sequences","schedules","histories","configurations"],"all histories x failing or cancelled flash accesses (before, partially, or after their effect) x cache configurations kept alive across the failure",
 "The tests contain one hand-written cancellation scenario; the upstream fuzzer never continues with a cache after a non-power failure of an arbitrary access.",
 [M,CM,L,KP,PP,PS],[("cache dirty flag set before each mutation, cleared when consistent, cache dropped when found dirty",CM+": DirtTracker; start of every operation in "+M),("auto repair",L+": run_with_auto_repair")],
 [("dirty flag","cache may disagree with flash",CM)],["MapStorage operations on the live instance vs. a fresh instance on the same flash"])

p("P04","Map: an interrupted removal never resurrects an older value",
 "If removing a key is interrupted by power loss, a flash error or cancellation at any point, a later fetch of that key returns either the value it had just before the removal or None, never an older value. The same holds per key for remove_all_items, other keys are unaffected by removal of one key, and a completed removal is never undone by later crashes or repairs.",
 ["crash_points","fault_sequences","histories"],"all histories with several stored versions of the same key over several pages x interruption points in removals, also combined with interrupted migrations",
 "One upstream fuzz target covers a single shutoff; nothing covers removal on top of an unfinished migration or repeated interruption.",
 [M,I],[("versions erased from oldest to newest, starting after the current page",M+": remove_item_inner"),("item erased by zeroing its CRC",I+": erase_data"),("unfinished migration repaired",M+": try_repair")],
 [],["MapStorage::fetch_item / fetch_all_items after interruption"])

p("P05","Map iteration is complete and never silently truncated",
 "Iterating a map to its end and keeping the last entry seen for each key yields exactly the live keys with their current values, after any history, crash or failed operation, and agrees with fetching each key. If a flash read fails while iterating, the iterator reports an error instead of ending early or skipping entries. When a call of next failed, was cancelled or got a buffer that is too small, calling it again (with a longer buffer) continues with the entry in question, and nothing is skipped.",
 ["histories","crash_points","fault_sequences","configurations"],"all histories and crash points before the iteration x read failures during it x page layouts (wrap-around, closed last page, unfinished migration)",
 "One test iterates over one layout without faults.",
 [M,L],[("start page selection: page after the current one",M+": fetch_all_items"),("page hopping",M+": MapItemIter::next")],
 [],["MapItemIter::next results vs. reference model"])

p("P06","Map accepts data that fits; FullStorage only when it genuinely does not",
 "Storing an item that takes s bytes of flash (header and padding included) succeeds whenever the live items, including the value being replaced, take at most (pages - 1) x (page size - two words - s) bytes, i.e. fit into all pages but one with s bytes wasted on each, no matter how much obsolete data the flash contains and how the history scattered it; such a store never returns FullStorage, also not after arbitrary earlier crashes and failures. A store that returns FullStorage leaves every key unchanged, and after removing or shrinking data storing works again.",
 ["histories","inputs","configurations","crash_points"],"all histories and sizes near the capacity limit x geometries x page counts >= 2",
 "Tests fill one geometry once; the guarantee depends on how live data is scattered by the whole history.",
 [M],[("page recycling loop bounded by page count",M+": store_item_inner"),("only live items are migrated",M+": migrate_items")],
 [],["Result of MapStorage::store_item vs. live size accounting"])

p("P07","Queue is an exact FIFO for any history",
 "In the absence of faults, a queue returns exactly the pushed items, unaltered and in push order: peek and pop return the oldest item still present, pop removes exactly that item, iteration yields every remaining item once from oldest to newest, and popping entries out of order through the iterator removes exactly those. This holds across page wrap-around and restarts for every geometry, page count (including one), cache and item size (including empty and maximum-size).",
 ["histories","inputs","configurations"],"all histories of push/pop/peek/iterate-with-selective-pop/erase/restart x geometries x caches x item sizes",
 "Tests replay a few scripted patterns on two geometries.",
 [Q,I,L],[("append behind the youngest page, oldest page search",Q+": find_youngest_page/find_oldest_page"),("iterator advance and proactive page erase",Q+": QueueIterator::next_inner")],
 [("previous_item_states","whether everything before the cursor has been popped",Q)],["QueueStorage::push/pop/peek/iter"])

p("P08","Queue: acknowledged pushes and pops survive power loss at any byte",
 "If power is lost at any byte of any flash program or erase during any queue operation, including during recovery from an earlier loss, then after restart the queue contains every item whose push was acknowledged and whose pop was not, in order, without duplicates and unaltered, except items a permitted overwrite was allowed to drop. An item whose push or pop was interrupted is either fully present at its place or absent, and a popped item never comes back.",
 ["crash_points","histories","configurations"],"all histories x crash points (every byte of every program/erase, repeatedly) x geometries x page counts >= 1 x caches",
 "The upstream fuzzer injects one shutoff per run with a warm cache on one geometry; tests contain none for the queue iterator's proactive erase.",
 [Q,I,L],[("item header/data CRC",I),("marker order on erase",L+": get_page_state"),("repair by re-erasing",L+": try_general_repair")],
 [],["contents read through a fresh QueueStorage after power loss"])

p("P09","Queue: failed or cancelled operations do not corrupt the live instance",
 "If a flash access fails with an error, or a queue operation's future is dropped at any await point, and the same queue instance with its cache keeps being used, no acknowledged item is lost, duplicated, reordered or altered, the interrupted push or pop takes effect entirely or not at all, and the live instance agrees with a freshly opened one. An iterator whose next or pop failed can be retried without skipping or repeating items.",
 ["fault_sequences","schedules","histories","configurations"],"all histories x failing or cancelled flash accesses x caches kept alive x retries on the same iterator",
 "Only one hand-written cancellation test exists, for the map.",
 [Q,CM,PP,PS],[("dirty flag discipline",Q+": *_inner functions"),("page pointer caches",PP)],
 [],["QueueStorage on the live instance vs. fresh instance"])

p("P10","Queue drops data only with permission, only when full, and only the oldest",
 "A push without overwrite permission never drops an item. A push with permission drops items only if the same push without permission would have been refused as full, and then only a contiguous run of the oldest items amounting to no more than one page of flash; after a successful push the new item is the newest and everything else is intact, in order.",
 ["histories","inputs","crash_points","configurations"],"all histories x sizes x overwrite flags, with crashes and cancellations in the overwriting push",
 "One test on a two-page flash; which page is dropped depends on wrap-around and pop patterns.",
 [Q],[("next page erased only if allowed or empty",Q+": push_inner"),("emptiness test",I+": is_page_empty")],
 [],["queue contents before/after push vs. what-if push(false) on a forked flash image"])

p("P11","Queue capacity reports are honest and drained space is reusable",
 "The size returned by find_max_fit is exact: a push of that size without overwrite succeeds and any larger push does not, and None means that no push succeeds; space_left never reports less than find_max_fit plus overhead or than pushes of empty items can use, nor, with several pages, more than these can use except for a rest of less than one item overhead per page and pages that were emptied out of turn. A queue whose items have all been popped accepts a maximum-size item again without overwrite permission (a single-page queue keeps what an interrupted push used up until a push with overwrite permission).",
 ["histories","inputs","configurations","crash_points"],"all histories x geometries (also pages larger than 64 KiB) x page counts >= 1 x caches",
 "Tests query a handful of states on one geometry and never push the reported size on multi-page queues.",
 [Q,I],[("free space computation",Q+": find_max_fit_inner/space_left_inner"),("empty page reuse",Q+": push_inner")],
 [],["find_max_fit/space_left results vs. pushes on forked flash images"])

p("P12","Caches are transparent",
 "For any history with the same inputs, crashes and failures, every cache configuration (key caches of any capacity, page pointer caches with room for some of the pages only) gives the same results as no cache at all, for map and queue: same fetched, peeked, popped and iterated data, same success or error of each operation, same capacity reports, and the same contents when the flash is reopened. A cache returned by destroy and reused on the unchanged flash behaves the same.",
 ["configurations","histories","crash_points","fault_sequences"],"all cache combinations and sizes x histories x crash/failure sequences at the same flash mutation",
 "The cache tests compare read counts for one access pattern, and `_check-cache` only compares page states.",
 [CM,PS,PP,KP],[("page state / page pointer / key pointer caches updated on every mutation",CM),("calculated page states",PS+": CalculatedPageStates")],
 [],["lock-step execution of one history on several instances with different caches"])

p("P13","Storage always recovers by itself: no panic, no Corrupted, no hang",
 "After any number of power losses, failed or cancelled operations at any points, every subsequent operation without a new fault terminates within a bounded number of flash accesses and does not panic, return Corrupted or LogicBug, or require erasing the storage. This includes every public query and iteration operation as the first one executed after the fault. (An erase_all that did not finish has to be repeated before the storage is used.)",
 ["crash_points","fault_sequences","histories","configurations"],"all fault sequences (including faults while recovering) x first operation afterwards x geometries x caches",
 "Tests check a few specific repaired states; repeated interruption of repair itself is not exercised.",
 [L,M,Q],[("run_with_auto_repair",L),("map repair",M+": try_repair"),("queue repair",Q+": try_repair")],
 [],["results and flash access counts of all operations after faults"])

p("P14","Flash is used within the driver contract",
 "Every access stays inside the configured flash range, is aligned to the read, write or erase size in address and length, passes write buffers whose RAM address is 4-byte aligned when the caller's buffers are, and only programs bytes the flash can take: no write unit is programmed twice between erases, except that removing or popping an item overwrites its header once more and that a program cut off by an interruption may be completed; bits are never set back to 1 by programming. This holds for every history, including all recovery paths after crashes, errors and cancellations.",
 ["histories","crash_points","fault_sequences","configurations"],"all histories and fault sequences x flash geometries (read size above, below, equal to write size; word sizes 1..32)",
 "The mock flash checks this only for the tests' own histories and geometries where read size equals write size.",
 [L,I,M,Q],[("word rounding",L+": round_up_to_alignment"),("AlignedBuf",L),("free spot search skips partially written words",I+": ItemHeaderIter::traverse")],
 [],["every ReadNorFlash/NorFlash call"])

p("P15","Wear is levelled and erases are minimal",
 "Pages are erased strictly cyclically, so that without faults the erase counts of any two pages of a map or queue never differ by more than one (two more per interruption), and an interruption adds at most two erases out of turn. A page is erased only if something was programmed on it since its last erase, a map erases nothing until its pages have been filled, and reading or querying healthy storage never programs flash and only a queue reader passing fully popped pages erases.",
 ["histories","configurations","crash_points"],"all histories without erase_all x geometries x page counts",
 "Tests compare average erase counts of one workload.",
 [M,Q],[("next page in cyclic order is used and recycled",M+": store_item_inner"),("oldest page recycled",Q+": push_inner, next_inner")],
 [],["erase calls seen by the flash"])

p("P16","Bit rot is contained: a damaged item never yields wrong data",
 "If stored bits of an item or page marker flip while at rest, no operation panics, hangs or returns data that was not stored: a fetch returns some value previously stored under that very key or None, a pop or iteration returns only items that were pushed, in order. Damage to one item affects no other item, and a single flipped bit in a page marker has no effect at all. (Accidental matches of the 16-bit header checksum are outside of this claim.)",
 ["fault_sequences","histories","configurations"],"all histories x flipped bits in item headers, item data and markers",
 "Tests corrupt two fixed places.",
 [I,L],[("CRC-16 of the length, CRC-32 of the data",I),("majority marker",L+": get_page_state"),("resynchronisation after a bad header",I+": traverse")],
 [],["all reads after the flip"])

p("P17","A transient single-bit read error loses nothing",
 "If one flash read returns data with one flipped bit and repeating the read returns the right data, then no acknowledged item is lost, now or later: fetches, pops, peeks and iterations return the right data, and stores, migrations and removals do their work as if the read had been clean. The only permitted deviation is on the safe side of a full queue: a push may be refused as full, or, if it has permission to overwrite, drop the oldest page early. (States that are one bit away from another valid one are outside of this claim: items whose CRC-32 has a single bit set, 1 in 2^27, and interrupted writes of which a single bit was or remained to be programmed.)",
 ["fault_sequences","histories","configurations"],"all histories x position of the disturbed read and bit, including reads made by migrations and repairs",
 "No test injects a read disturbance; the documented re-read on CRC mismatch is untested.",
 [I,L],[("re-read on CRC mismatch",I+": read_new/read_item"),("majority marker",L+": get_page_state")],
 [],["results of the disturbed and all later operations"])

p("P18","A rejected operation changes nothing",
 "When an operation is rejected with ItemTooBig, BufferTooSmall, SerializationError or FullStorage, all stored data stays exactly as it was, now and after a restart, and the same operation with sufficient space or buffer works afterwards (a removal refused half-way for a too small buffer counts as interrupted: the key keeps its value or is gone). A buffer as long as the longest item stored or being stored, rounded up to the word size, is always sufficient, and BufferTooSmall reports a size that is larger than the given buffer and no larger than that. An item is rejected as ItemTooBig exactly if it exceeds 65535 bytes or page size minus two words minus item overhead.",
 ["inputs","histories","configurations"],"all histories x oversize items, undersized caller buffers (any length, at any time, also during migration) and failing serializers",
 "Tests reject one item in one state.",
 [M,Q,I],[("size checks before writing",M+": store_item_inner; "+Q+": push_inner"),("buffer check",I+": read_item")],
 [],["results and contents after a rejected operation"])

p("P19","Buffered queue keeps one FIFO across RAM and flash",
 "A buffered queue behaves as one FIFO of the accepted items: pop and peek return the oldest item wherever it resides, draining moves items to flash in order, a full RAM ring refuses or evicts exactly the oldest RAM items according to the policy given, and the introspection counters match. A failed, cancelled or refused drain loses nothing (an item in flight may be delivered twice only if its flash write was interrupted), drained items survive power loss, and an undersized caller buffer is reported rather than presented as an empty queue.",
 ["histories","inputs","fault_sequences","crash_points"],"all histories x ring capacities x item sizes x overflow policies x flash faults",
 "Tests run a few scripted sequences without flash faults.",
 [B],[("ring indices and byte accounting",B+": RamRing"),("peek, push to flash, then discard",B+": drain_one")],
 [],["BufferedQueue public API"])

p("P20","Shared RAM ring: interrupts at any instant lose nothing and always wake",
 "With interrupts enqueueing at any instant between critical sections or while the drain task waits for flash, every accepted item reaches flash exactly once and in acceptance order unless DiscardOldest evicted it while it was the oldest item in the ring; no item is skipped, duplicated or evicted silently otherwise, and a full flash does not keep a reader from taking items out. A task waiting for data is woken whenever an item was accepted, so that the ring is empty when the system becomes idle.",
 ["schedules","histories","inputs"],"all interleavings of interrupt-context enqueues with task-context drains, pops, peeks and waits x overflow policies x ring sizes",
 "Tests call everything sequentially from one context.",
 [B],[("critical-section mutex around the ring",B+": SharedRamRing"),("signal after successful enqueue",B+": enqueue/wait_and_drain_all")],
 [("ring","shared between interrupt and task context",B)],["flash contents and ring state under a simulated interrupt schedule"])

p("P21","In-flash format is stable within the major version",
 "Storage written by the pinned release 8.0.1, in any state including one left by a power loss, is read, continued and recovered by the current code with all acknowledged data, for map and queue. Storage written by the current code is likewise readable by the pinned release.",
 ["histories","configurations","crash_points"],"all histories x geometries x crash states x alternations between the two versions",
 "Tests always read with the code that wrote, so a changed CRC, header layout or marker passes them.",
 [I,L],[("item header layout and CRCs",I),("page markers",L)],
 [],["reopening the same flash image with the other version"])

p("P22","Typed keys and values round-trip through storage and restarts",
 "Every provided key type (integers, byte arrays, unit, heap/array strings and vectors) and value type (numbers, number arrays, bool, Option, byte slices, strings, vectors and postcard types) stored in a map is fetched and iterated back equal, distinct keys never alias, and mixed key sizes and value lengths at their limits behave, with every key cache and across migrations, restarts and power losses. A buffer too short for the encoded key or value is reported as such, a key longer than 65535 bytes is rejected, an encoded key that is cut off is not decoded as another key, and fetching a value as another type gives what its bytes mean to that type or an error, never a panic.",
 ["inputs","histories","crash_points"],"all keys and values of the provided types x histories x crash points",
 "Tests round-trip single sample values mostly outside of storage.",
 [M,"src/alloc_impl.rs","src/arrayvec_impl.rs","src/heapless_impl.rs","src/heapless_09_impl.rs"],[("Key/Value implementations",M)],
 [],["MapStorage::<K>::store_item/fetch_item/fetch_all_items"])

p("P23","Configuration constructors accept exactly the valid layouts",
 "MapConfig and QueueConfig accept a flash range exactly if it is page aligned, has at least two (map) or one (queue) pages, and pages and words are of supported size; every other range is reported with the matching error.",
 ["inputs","configurations"],"all ranges x geometries","Tests cover a few ranges.",
 [M,Q],[("try_new",M),("try_new",Q)],[],["MapConfig::try_new","QueueConfig::try_new"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e) + "\n")
print(len(P))
