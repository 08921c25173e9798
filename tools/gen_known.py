#!/usr/bin/env python3
"""Writes /verif/known_findings.txt; commit ids are looked up by subject. Run by hand, never by a check."""
import subprocess, os
F = [
 ("repair the flash when a map iteration starts on a half-erased page", "P13", "fetch_all_items after a power loss inside an erase returned Corrupted instead of repairing (also P02, P05)"),
 ("invalidate the cache in erase_all", "P01", "erase_all left the page and key caches as they were: fetches after it returned deleted data or errors, stores went to pages believed in use (also P12)"),
 ("don't trust a dirty cache in map removal and iteration", "P03", "remove_item, remove_all_items and fetch_all_items used cache contents left inconsistent by a failed or cancelled operation (also P04, P12)"),
 ("check the key of an item found through the key cache", "P16", "fetch through a stale or damaged key cache position returned the value of another key"),
 ("finish an interrupted migration before removing items", "P04", "a removal on top of an unfinished migration removed the copy only; after the repair the removed value was back (also P13)"),
 ("report storage errors hit by the map iterator when it switches pages", "P05", "a read error while the map iterator moved to the next page ended the iteration as if complete"),
 ("retry the item header as well when the data doesn't match its crc", "P17", "a single disturbed read of an item header's crc made the item be treated as corrupt and dropped"),
 ("read a header again when it claims more than the page can hold", "P17", "a single disturbed read of a header's length made the rest of the page be skipped and lost"),
 ("don't let the next item complete a partially written header", "P02", "debris of a torn header plus the first bytes of the next item formed a valid header, hiding acknowledged items (also P06)"),
 ("don't bring back items from a page whose erase in a map repair was interrupted", "P02", "a power loss during the erase of a repair left a page that looked open but had items on it; they came back as current values or were programmed over (also P03, P04, P05, P13, P14)"),
 ("report what really fits in find_max_fit", "P11", "find_max_fit ignored the item header, exceeded 65535 and returned Corrupted for a single-page queue (also P07, P13)"),
 ("reuse the page of a single-page queue once all its items are popped", "P11", "a drained single-page queue refused every push without overwrite permission forever (also P07)"),
 ("make an interrupted erase of a single-page queue recoverable", "P08", "a power loss while a single-page queue erased its page left debris that was taken for items or programmed over"),
 ("only count an item as popped once it's erased in flash", "P09", "continuing an iteration after a failed pop could erase the page that still held the unpopped item"),
 ("count the only page as free in space_left when it's popped empty", "P11", "space_left of a drained single-page queue was less than what find_max_fit reported"),
 ("don't skip an item when an interrupt evicts the one being drained", "P20", "SharedRamRing::drain_one dropped the next item when DiscardOldest had evicted the item in flight"),
 ("report a too small buffer in the buffered queue instead of an empty queue", "P19", "drain_one, pop and peek with a too small buffer reported an empty queue"),
 ("let SharedRamRing pop and peek items when the flash is full", "P20", "with a full flash and items in the ring, SharedRamRing::pop and peek failed with FullStorage forever, so that nothing could ever be taken out"),
 ("report a too small scratch buffer in SharedRamRing::drain_one instead of an empty ring", "P20", "SharedRamRing::drain_one and drain_all with a too small scratch buffer reported an empty ring and left the items there"),
 ("count the space of the only page in space_left when an overwriting push was interrupted", "P11", "space_left of a single-page queue was 0 after an interrupted overwriting push although find_max_fit and pushes found room"),
 ("don't take the misread rest of a torn header for the end of the items", "P17", "one disturbed read inside the debris of a torn header made the next item be programmed over existing ones"),
 ("report a short buffer as such when a heapless string key is serialized", "P22", "heapless and heapless-09 String keys reported InvalidFormat instead of BufferTooSmall for a short buffer"),
 ("the size of a damaged item header could overflow an address", "P13", "a damaged header on a range at the very end of the 32-bit address space overflowed an address (panic with overflow checks)"),
 ("continue a map iteration at the item that could not be read", "P05", "after a call of next of the map iterator failed, was cancelled or got a too small buffer, the next call silently skipped that item"),
 ("don't panic with a key pointer cache without entries", "P12", "a key pointer cache of capacity 0 panicked on the first store"),
]
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    log[s] = h
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "known_findings.txt"), "w") as f:
    f.write("# Genuine defects found by the checks. `fixed:` entries suppress nothing; `known:` entries are reported as KNOWN-FINDING.\n")
    f.write("# known: property=<id> class=<violation class> [param:<case parameter>=<value> ...] :: <text>\n")
    for s, p, t in F:
        h = log.pop("fix: " + s, None)
        if h:
            f.write(f"fixed: property={p} {h} {t}\n")
        else:
            print("not in /repo:", s)
    for s in log:
        if s.startswith("fix:"):
            print("missing here:", s)
