//! What each check runs and what it says about itself in the evidence file.
use simcore::runner::Plan;

const COMPAT_REAL: &str = "sequential_storage from /repo's working tree and a frozen copy of its pinned release (commit de72f95): map and queue on top of item, page and cache layers";
const FLASH_STUB: &str = "the NOR flash device (SimFlash: byte-accurate image, 0/1 programming rules, torn programs and erases, failing, hanging and disturbed accesses) and the async executor (single-step poller)";
const MAP_REAL: &str = "sequential_storage from /repo's working tree: map, item, page and cache layers, all compiled in unchanged";
const QUEUE_REAL: &str = "sequential_storage from /repo's working tree: queue, item, page and cache layers, all compiled in unchanged";
const BOTH_REAL: &str = "sequential_storage from /repo's working tree: map and queue on top of item, page and cache layers, all compiled in unchanged";
const RING_REAL: &str = "sequential_storage from /repo's working tree: BufferedQueue, SharedRamRing and the flash queue below them; embassy-sync's Signal and Mutex";
const RING_STUB: &str = "the NOR flash device (SimFlash), the critical-section implementation (runs the simulated interrupt before every outermost section), interrupts, the waker and the executor";

const A_TORN: &str = "an interrupted program takes effect for a prefix of its bytes, an interrupted erase for a prefix of the page (as in the crate's own mock flash)";
const A_OLD: &str = "the pinned release is given flash without unfinished repairs only, and neither failing accesses nor a second life after its power loss, nor queues of a single page: it is known to lose data there (see known_findings.txt)";
const A_CRC: &str = "up to accidental matches of the 16-bit header checksum: a run in which debris of a torn write followed by other bytes forms a header with a matching checksum is not judged";
const A_FLIP: &str = "flips that turn payload bytes into something with a matching header checksum are not injected";
const A_REM: &str = "the histories that remove or pop items use a flash that permits clearing bits of a programmed word once more (MultiwriteNorFlash), as the API demands";

macro_rules! plan {
    ($q:expr, $t:expr, $th:expr, $real:expr, $stub:expr, $rule:expr, [$($a:expr),*], [$($m:expr),*]) => {
        Plan { runs: if $th { $t } else { $q }, real: $real, stub: $stub, rule: $rule, assumptions: &[$($a),*], must_hit: &[$($m),*] }
    };
}

pub fn plan(prop: &str, th: bool) -> Option<Plan> {
    Some(match prop {
        "P01" => plan!(100_000, 1_800_000, th, MAP_REAL, FLASH_STUB,
            "one case = geometry, page count, cache and a random history of stores, fetches, removals, iterations, restarts, no faults, compared with a key-value model after every read; non-trivial: at least one page was recycled",
            [A_REM], ["ops_with_page_erase"]),
        "P02" => plan!(240_000, 7_000_000, th, MAP_REAL, FLASH_STUB,
            "one case = geometry, cache and a random history in which operations are cut by power loss at a random program or erase with a random torn length, also while recovering; contents compared with the model by fresh instances after each; non-trivial: at least one power loss fired",
            [A_TORN, A_CRC, A_REM], ["power_loss", "fault_in_op_with_erase"]),
        "P03" => plan!(240_000, 6_000_000, th, MAP_REAL, FLASH_STUB,
            "as P02 with failing flash accesses and dropped futures instead of power loss, the same instance and its cache being used afterwards; non-trivial: at least one fault fired",
            [A_TORN, A_CRC, A_REM], ["failed_access", "cancelled_op", "fault_in_op_with_erase"]),
        "P04" => plan!(240_000, 7_000_000, th, MAP_REAL, FLASH_STUB,
            "histories rich in removals of items that have many older versions, with power loss, failures and cancellation; non-trivial: at least one fault fired",
            [A_TORN, A_CRC, A_REM], ["power_loss", "fault_in_op_with_erase"]),
        "P05" => plan!(240_000, 7_000_000, th, MAP_REAL, FLASH_STUB,
            "histories with iterations at every point, including after and during faults; the last value an iteration yields per key must be the current one; non-trivial: at least one fault fired or page recycled",
            [A_TORN, A_CRC, A_REM], []),
        "P06" => plan!(200_000, 5_000_000, th, MAP_REAL, FLASH_STUB,
            "histories that keep the map close to its guaranteed capacity, with and without faults; a store within the bound must succeed; non-trivial: at least one page was recycled",
            [A_TORN, A_CRC, A_REM], ["ops_with_page_erase"]),
        "P07" => plan!(150_000, 3_500_000, th, QUEUE_REAL, FLASH_STUB,
            "one case = geometry, 1..N pages, cache and a random history of pushes (with and without permission to overwrite), pops, peeks and restarts, no faults, compared with a FIFO model; non-trivial: at least one page was recycled",
            [A_REM], ["ops_with_page_erase", "overwriting_pushes", "full_storage"]),
        "P08" => plan!(500_000, 12_000_000, th, QUEUE_REAL, FLASH_STUB,
            "as P07 with power loss at a random program or erase with a random torn length, also while recovering; non-trivial: at least one power loss fired",
            [A_TORN, A_CRC, A_REM], ["power_loss", "fault_in_op_with_erase"]),
        "P09" => plan!(500_000, 12_000_000, th, QUEUE_REAL, FLASH_STUB,
            "as P07 with failing flash accesses and dropped futures, the same instance, iterator and cache being used afterwards; non-trivial: at least one fault fired",
            [A_TORN, A_CRC, A_REM], ["failed_access", "cancelled_op", "fault_in_op_with_erase"]),
        "P10" => plan!(500_000, 12_000_000, th, QUEUE_REAL, FLASH_STUB,
            "histories rich in iterations that pop a random subset of the entries, with all fault kinds, iterations being continued after failures; non-trivial: at least one fault fired or page recycled",
            [A_TORN, A_CRC, A_REM], []),
        "P11" => plan!(160_000, 4_000_000, th, QUEUE_REAL, FLASH_STUB,
            "histories without and (40 %) with power loss, failing accesses and cancellation; at random points the find_max_fit of the instance in use, whatever happened to it before, is checked for exactness by pushing that much and one byte more on copies of the flash, and space_left against it and against the number of empty items that can be pushed; non-trivial: at least one page was recycled",
            [A_TORN, A_CRC, A_REM], ["capacity_checked"]),
        "P12" => plan!(250_000, 6_000_000, th, BOTH_REAL, FLASH_STUB,
            "the same history with the same faults runs in lockstep with two cache configurations; results and final contents must agree; non-trivial: at least one fault fired or page recycled",
            [A_TORN, A_CRC, A_REM], []),
        "P13" => plan!(200_000, 5_000_000, th, BOTH_REAL, FLASH_STUB,
            "after faults of every kind, each single further operation is tried on a copy of the flash and has to succeed without outside help, then the history continues; non-trivial: at least one fault fired",
            [A_TORN, A_CRC, A_REM], ["power_loss", "fault_in_op_with_erase"]),
        "P14" => plan!(400_000, 10_000_000, th, BOTH_REAL, FLASH_STUB,
            "the simulated flash checks every access for alignment, range, buffer alignment and repeated programming; histories with and without removal, with all fault kinds; non-trivial: at least one page was recycled or fault fired",
            [A_TORN, A_CRC, A_REM], []),
        "P15" => plan!(140_000, 3_500_000, th, BOTH_REAL, FLASH_STUB,
            "long histories, some with power losses, failures and cancellation, whose erase log is checked for needless erases, balance and cyclic order (up to two erases out of turn per interruption), and reads for not writing; non-trivial: at least one page was recycled",
            [A_TORN, A_CRC, A_REM], []),
        "P16" => plan!(500_000, 12_000_000, th, BOTH_REAL, FLASH_STUB,
            "histories in which single bits of item data, item headers and page markers at rest are inverted; non-trivial: at least one bit was flipped",
            [A_FLIP, A_CRC, A_REM], ["flip_marker", "flip_length", "flip_crc", "flip_data"]),
        "P17" => plan!(500_000, 12_000_000, th, BOTH_REAL, FLASH_STUB,
            "histories in which single reads return one inverted bit once, in half of the runs also with power losses and failing or cancelled mutations so that repairs read, too; non-trivial: at least one disturbed read",
            [A_TORN, A_CRC, A_REM], []),
        "P18" => plan!(140_000, 3_500_000, th, BOTH_REAL, FLASH_STUB,
            "histories with oversize items, buffers of any length, many of them just long enough or a few bytes short, and failing serializers, in half of the runs after power losses, failures and cancellation; non-trivial: at least one operation was rejected",
            [A_TORN, A_CRC, A_REM], ["rejected_too_big", "rejected_buffer"]),
        "P19" => plan!(600_000, 16_000_000, th, RING_REAL, RING_STUB,
            "one case = ring size, geometry and a random history of enqueues, drains, pops, peeks, restarts on a BufferedQueue with power loss, failing accesses and cancellation; compared with a two-stage FIFO model; non-trivial: items passed through RAM and flash",
            [A_TORN, A_CRC, A_REM], ["power_loss", "rejected_buffer", "enqueue_evicted"]),
        "P20" => plan!(90_000, 2_000_000, th, RING_REAL, RING_STUB,
            "one case = ring size, geometry, task script and a schedule of interrupts that enqueue before any critical section or flash access; compared with a model of ring and flash; non-trivial: at least one interrupt fired inside a task-context operation",
            [A_TORN, A_CRC, A_REM], ["irq_accepted", "task_idle"]),
        "P21" => plan!(300_000, 7_000_000, th, COMPAT_REAL, FLASH_STUB,
            "one case = geometry, cache and a random history during which the code under test and a frozen copy of the pinned release take turns on the same flash; the pinned release is left at operation boundaries or by a power loss in the middle of an operation, which the code under test has to recover; contents compared with the model throughout; non-trivial: a power loss fired or a page was recycled",
            [A_TORN, A_CRC, A_REM, A_OLD], ["old_reads_new", "old_continues_new", "new_continues_old", "new_recovers_old", "encodings_compared"]),
        "P22" => plan!(200_000, 5_000_000, th, MAP_REAL, FLASH_STUB,
            "one case = one of 26 key types, one value type for all or changing with the key out of 40, cache and a random history of stores, fetches, removals, iterations, restarts and undersized buffers, with power loss, failures and cancellation; keys are prefixes of each other, differ in one byte or have maximum length; contents compared with the model; non-trivial: a fault fired or a page was recycled",
            [A_TORN, A_CRC, A_REM], ["power_loss", "rejected_buffer", "rejected_serialization", "key_too_long", "fetched_as_other_type", "cut_keys_decoded"]),
        _ => return None,
    })
}
