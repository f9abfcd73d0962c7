"""What each check runs: passes, budgets (seconds per worker), least coverage, and the text of the evidence."""

COMMON = [
    "element types have lawful Ord/Eq/Clone/Hash implementations (unless the property is about panics)",
    "held on the executions observed; nothing is said about paths the workloads never drive",
]


def native(q, t, **k):
    return dict(mode="native", quick=q, thorough=t, **k)


def asan(q, t, **k):
    return dict(mode="asan", quick=q, thorough=t, **k)


def tsan(q, t, **k):
    return dict(mode="tsan", quick=q, thorough=t, **k)


def msan(q, t, **k):
    return dict(mode="msan", quick=q, thorough=t, **k)


def miri(q, t, mac=False, **k):
    return dict(mode="miri-mac" if mac else "miri", quick=q, thorough=t, **k)


PROPS = {
    "P01": dict(
        passes=[native(15, 240)],
        rule="random histories over 2 to 4 sets (insert, remove, retain, extend, build from iterator/Vec/BTreeSet/map/macro, conversions, set operations), "
        "11 element types, inline capacities 0,1,2,3,4,8,16; after every step the set is compared with a BTreeSet. Non-trivial: some set held at least two elements; "
        "distinct: sequence of (operation, size before, size after)",
        assumptions=COMMON,
        min={"evaluations": 2000, "distinct": 1000, "membership_queries": 20000},
    ),
    "P02": dict(
        passes=[native(12, 240)],
        rule="pairs of sets in nine kinds of relation (overlapping, equal, nearly equal, nested, separated, alternating, runs, asymmetric), sizes 0 to 600, combined with all four "
        "operations in nine forms; results compared element by element, including which operand an element came from. Non-trivial: both operands non-empty; distinct: the pair of contents",
        assumptions=COMMON,
        min={"evaluations": 1000, "distinct": 800, "results_checked": 30000},
    ),
    "P03": dict(
        passes=[native(10, 240)],
        rule="pairs of sets (Tok, archived u32, seven other types) and maps in the nine kinds of relation of P02, inline, heap and shrunk, all subset/superset/disjoint answers in both "
        "directions and reflexively, equality, hash and order against the sorted contents; families of sets sorted and used as keys. Non-trivial: both operands non-empty; distinct: contents",
        assumptions=COMMON,
        min={"evaluations": 1000, "distinct": 800, "relations_checked": 20000, "relations_true": 3000, "comparisons_checked": 2000},
    ),
    "P04": dict(
        passes=[native(12, 240)],
        rule="random histories over 2 to 4 maps (insert, get_mut, retain, extend, merge_with, combine_with, map_values, build from iterator/BTreeMap/macro, conversions), 8 key types, "
        "inline capacities 0 to 16, every value unique so that the surviving one shows; compared with a BTreeMap after every step. Non-trivial: some map held two pairs; distinct: sequence of (operation, size before, after)",
        assumptions=COMMON,
        min={"evaluations": 2000, "distinct": 1000, "lookups": 20000, "states_checked": 20000},
    ),
    "P05": dict(
        passes=[native(12, 240)],
        rule="pairs of maps in nine kinds of relation, four joins by reference and in place, native, foreign and archived operands, random keep/drop rules; result and the complete log of combiner "
        "calls compared with the relational definition. Non-trivial: both operands non-empty; distinct: the pair of key lists",
        assumptions=COMMON,
        min={"evaluations": 1000, "distinct": 800, "joins_checked": 10000, "combiner_calls": 50000},
    ),
    "P06": dict(
        passes=[native(10, 240)],
        rule="sequences of 0 to 3000 keys (thorough 20000) in 12 shapes plus arrangements around the compaction threshold, every size hint (misleading ones included), built into sets, maps, "
        "Vec and SmallVec with both keep policies; elements carry their input position. Non-trivial: input with duplicates and at least two distinct keys; distinct: the key sequence",
        assumptions=COMMON,
        min={"evaluations": 1000, "distinct": 800, "builds_checked": 10000},
    ),
    "P07": dict(
        passes=[native(15, 240)],
        rule="comparisons and live elements counted while building (up to 12000 inputs, thorough 60000), looking up (native, archived and total sets and maps; also places of insertions and removals), merging (all set operations, comparisons and joins, archived operands, total sets and maps) and testing relations with an "
        "early counterexample, each against an explicit bound of the promised growth rate. Non-trivial: sizes above the trivial ones; distinct: inputs",
        assumptions=COMMON + ["the constants of the bounds (2r+24 elements held, 4n+64, n log2^2 n, 2 log n + 20, min(3(n+m), 6 m log n) + 32, 2 log^2 + 16(k+1)) are ours"],
        min={"evaluations": 300, "distinct": 250, "builds": 200, "lookups": 1000, "merges": 2000, "early_exits": 30},
    ),
    "P08": dict(
        passes=[native(10, 200)],
        rule="allocations counted around single operations on sets and maps of inline capacity 0 to 16 that fit, pairwise operations and joins whose union fits (by reference: whose result fits), and on "
        "collections of any size for in place intersection and difference, relations, comparisons, lookup, removal; total sets and maps whose stored elements fit; heap bytes of sets after shrinking. Non-trivial: more than one element, or a fitting combination; distinct: contents",
        assumptions=COMMON,
        min={"evaluations": 2000, "distinct": 1000, "operations_watched": 50000, "fitting_inserts": 2000, "fitting_collects": 1000, "fitting_results": 3000, "any_size": 100, "totals": 1000, "shrunk": 500},
    ),
    "P11": dict(
        passes=[native(12, 240)],
        rule="random histories over 2 to 4 total sets (insert, remove, complement, operations by reference and in place, rebuilding, serialisation in three formats) and pairs in all four sign "
        "combinations, elements u32/String/tracked, inline capacity 0 to 16; compared after every step with a truth table over the universe plus a cell for all other values, and all relations "
        "between the sets involved. Non-trivial: some set neither empty nor full; distinct: sequence of (operation, size, sign) or the pair",
        assumptions=COMMON,
        min={"evaluations": 2000, "distinct": 1000, "operations": 20000, "memberships": 100000, "relations": 20000, "roundtrips": 500},
    ),
    "P12": dict(
        passes=[native(12, 240)],
        rule="random histories over 2 to 4 total maps (arithmetic, supremum, infimum, random combination and mapping tables, new defaults, serialisation) with values from Z/7 so that collisions with the default "
        "are frequent, non-canonical serialised input, and pairs differing in one respect; compared after every step with a function table plus a cell for all other keys; equality, hash and order against "
        "equality of the tables. Non-trivial: some exception listed; distinct: sequence of (operation, exceptions, default) or the tables",
        assumptions=COMMON,
        min={"evaluations": 2000, "distinct": 1000, "operations": 20000, "evaluated": 100000, "comparisons": 20000, "equal_pairs": 1000, "noncanonical_inputs": 500},
    ),
    "P13": dict(
        passes=[native(12, 240)],
        rule="sets and maps of six element types (and nested ones) written and read in JSON text, JSON values, bincode, CBOR and CBOR without lengths, to the same and other inline capacities; plain unsorted sequences "
        "and entry lists with duplicates decoded into them, with honest and misleading size hints. Non-trivial: input with duplicates and two distinct elements; distinct: the input sequence",
        assumptions=COMMON + ["formats deliver what was written (serde_json, bincode, serde_cbor)"],
        min={"evaluations": 1000, "distinct": 500, "decoded": 20000},
    ),
    "P14": dict(
        passes=[native(10, 240)],
        rule="random bytes, damaged valid encodings and containers announcing up to 2^64-1 elements decoded in JSON, CBOR and bincode (fixed and variable integers) as nine types, and deserializers with arbitrary size hints; "
        "watched for panics, aborts, endless loops and for peak heap above 2 MiB + 400 bytes per input byte. Non-trivial: more than two bytes; distinct: input, format and type",
        assumptions=COMMON + ["elements occupy at least one byte of the input", "the format itself is robust (serde_json, bincode, serde_cbor)"],
        min={"evaluations": 5000, "distinct": 3000, "decoded": 10000, "announced_lengths": 1000, "accepted": 500, "misleading_hints": 300},
    ),
    "P19": dict(
        passes=[native(12, 300)],
        rule="random histories on flat, shared and lazy trees (insert, prepend, filter_prefix, all combinations with operands of every flavour, prefix removal and retention, archiving and reopening) over six symbol "
        "types, alphabets of 1 to 256 symbols and key pools full of prefixes, extensions and long common parts; after every step contents, iteration, values, lookups, membership and prefix scans are compared with a "
        "BTreeMap of key sequences. Non-trivial: more than one operation and a non-empty tree; distinct: sequence of (operation, size)",
        assumptions=COMMON,
        min={"evaluations": 500, "distinct": 400, "operations": 5000, "pairs_compared": 100000, "hits": 3000, "misses": 10000},
    ),
    "P20": dict(
        passes=[native(12, 300)],
        rule="pairs of trees (overlapping, nested, below one another, equal, single key) of flat, shared and lazy flavour, native and archived on both sides, combined by union, intersection, difference and the outer, inner "
        "and left combinations with seven combining functions, by value and in place, also of copies of one tree that were edited apart (most structure shared), of a tree with itself and with the archive it was opened from; result contents and the multiset of combiner calls are compared with the pointwise definition. Non-trivial: both trees "
        "non-empty; distinct: the pair of contents and the right operand's flavour",
        assumptions=COMMON,
        min={"evaluations": 500, "distinct": 400, "results": 5000, "combiner_calls": 10000, "shared_operands": 500},
    ),
    "P21": dict(
        passes=[native(10, 240)],
        rule="trees of every flavour against prefix trees of every flavour, native and archived, with 0 to 1000 keys of every depth and four selecting predicates; also an edited copy of the tree itself; both results compared with the definition on the lists of "
        "keys, then used further. Non-trivial: both trees non-empty; distinct: contents and flavour of the prefix tree",
        assumptions=COMMON,
        min={"evaluations": 500, "distinct": 400, "results": 2000, "predicate_calls": 2000, "partly_kept": 500, "derived_copies": 300},
    ),
    "P22": dict(
        passes=[native(10, 240)],
        rule="pairs of trees of all flavours, native and archived, with equal or different value types, and edited copies of one tree, in nine relations (subset with few extras, disjoint but for one key, shifted by one symbol, single key ...); all four "
        "relations in both directions and reflexively compared with those of the key sets. Non-trivial: both trees non-empty; distinct: the pair of contents",
        assumptions=COMMON,
        min={"evaluations": 500, "distinct": 400, "relations": 10000, "true_subset": 2000, "true_disjoint": 500, "derived_copies": 300},
    ),
    "P23": dict(
        passes=[native(12, 300)],
        rule="the random histories of P19; after every operation every node (label, value, children) is compared with the minimal tree computed independently from the sorted contents, then with the same contents built "
        "otherwise, converted and archived; equality against equality of contents. Non-trivial: two keys or more; distinct: sequence of (operation, size)",
        assumptions=COMMON,
        min={"evaluations": 500, "distinct": 400, "operations": 5000, "nodes_checked": 50000, "comparisons": 1000},
    ),
    "P15": dict(
        passes=[native(12, 240), asan(6, 120), miri(0, 240), msan(0, 120)],
        rule="sets and maps of eight element types and trees of all flavours with five symbol and value types archived with rkyv at arbitrary positions, alone and bundled with collections of other types; contents, nodes, "
        "lookups, iteration, prefix scans, relations, set operations, joins and combinations of the archived form (as either operand) compared with the same call on the original; full deserialisation, conversion and a second "
        "archive compared with the original. Non-trivial: two elements or more; distinct: contents",
        assumptions=COMMON + ["rkyv 0.7.25 serialises and resolves its own containers correctly"],
        min={"evaluations": 1000, "distinct": 500, "round_trips": 3000, "reads": 20000},
    ),
    "P16": dict(
        passes=[native(14, 240)],
        rule="sorted, swapped and duplicated element and pair sequences of eight types laid out as archived sets and maps (also nested); archived flat and shared trees with sibling symbols swapped, equalled or replaced and labels "
        "emptied or cut at any depth, judged by reading the patched archive; randomly damaged trees; lists of versions with shared structure and bundles of types. Acceptance must equal well-formedness, and accepted trees must "
        "iterate in order and find what they list. Non-trivial: two elements or more; distinct: contents and patch",
        assumptions=COMMON + ["rkyv 0.7.25 lays out its own containers as it does (checked by patching and reading back)"],
        min={"evaluations": 1000, "distinct": 500, "accepted": 5000, "rejected": 2000, "mutations_accepted": 500, "pairs_consistent": 5000},
    ),
    "P17": dict(
        passes=[native(10, 240), asan(16, 300), miri(12, 300), msan(0, 120)],
        rule="archives of sets, maps, flat and shared trees (elements, symbols and values with invalid bit patterns such as bool and char among them) damaged by bit flips, overwritten, nudged and swapped words, copied blocks, "
        "redirected relative pointers, cut fronts and backs and displaced roots, and synthetic buffers; held in allocations of exactly their size and validated; whatever is accepted is walked (every reference handed out must lie "
        "within the buffer), iterated, looked up, scanned, related and combined with native trees, deserialised and converted; chains of nodes up to 1200 deep against rkyv's depth limit. Non-trivial: some buffer was accepted; distinct: the buffers",
        assumptions=COMMON + ["AddressSanitizer sees accesses outside the exactly sized buffer, Miri also invalid values and references", "rkyv 0.7.25's own validators are sound"],
        min={"evaluations": 500, "distinct": 300, "buffers": 5000, "accepted": 1000, "rejected": 1000, "references_checked": 20000, "limited": 200},
    ),
    "P18": dict(
        passes=[native(10, 240)],
        rule="pairs of ordered maps in the nine kinds of relation of P02 with nine key types; the four by-value joins with native and archived maps on either side and the four in-place joins with native and archived right sides, "
        "under nine combining functions that keep, change or drop values depending on which sides are present; results and the exact multiset of consultations compared with the relational definition; comparisons of joins of maps of up to 6000 keys, of similar and of very different sizes, counted against four times those of the lookups and insertions needed. Non-trivial: both maps "
        "non-empty; distinct: the pair of key sets",
        assumptions=COMMON + ["rkyv 0.7.25's ArchivedBTreeMap looks up and iterates correctly (checked against the original along the way)"],
        min={"evaluations": 500, "distinct": 300, "results": 10000, "combiner_calls": 50000, "costs_bounded": 2000},
    ),
    "P09": dict(
        passes=[native(12, 300), asan(10, 240), miri(12, 300), msan(0, 120)],
        rule="random histories over sets, maps, total sets and maps, ordered maps and trees of every flavour with elements, keys and values that register every instance: after every operation exactly the elements held are alive, "
        "none is read after or dropped twice, at the end none is left and the allocator's books balance; partially consumed owned iterators, failing deserialisation, snapshots; zero sized, over-aligned and large "
        "elements; inline capacity 0 to 16, inline and heap. Non-trivial: two elements held over several operations; distinct: sequence of (operation, sizes)",
        assumptions=COMMON + ["AddressSanitizer and Miri see the memory errors that a ledger does not (at the sizes they run)"],
        min={"evaluations": 500, "distinct": 400, "operations": 5000, "balances": 2000, "instances": 50000, "books": 50},
    ),
    "P10": dict(
        passes=[native(14, 300), asan(10, 240), miri(12, 300), msan(0, 120)],
        rule="random operations on the worlds of P09; the number of comparisons, clones and calls of combining functions, predicates and source iterators each operation makes is counted, then it is repeated on equal collections with a "
        "panic at every such index (when many: the ends and a sample); afterwards the ledger, borrowed operands, order and origin of the in place operand's content are checked, everything is read, used and dropped. "
        "Non-trivial: some operation was interrupted; distinct: operations, sizes and call counts",
        assumptions=COMMON + ["one panic per operation; panics in drop implementations are not injected", "leaking elements after a panic is allowed"],
        min={"evaluations": 300, "distinct": 250, "operations": 500, "interrupted": 5000, "in_comparison": 1000, "in_clone": 1000, "in_call": 500},
    ),
    "P24": dict(
        passes=[native(14, 240), asan(6, 120)],
        rule="branching histories over up to ten copies of shared and lazy trees (partly loaded ones among them): after every operation on one copy the contents of all copies and of all pinned child lists are compared with what "
        "they were; snapshots: value clones, allocations and identity of every child list; insertions into trees with snapshots: every child list off the path of the key must be the very list of the snapshot, and clones are "
        "bounded by the lists on the path. Non-trivial: more than two changes, or three pairs; distinct: contents, operations",
        assumptions=COMMON + ["a child list is identified by the address of its elements"],
        min={"evaluations": 1000, "distinct": 500, "copies_checked": 20000, "snapshots": 3000, "changes": 3000, "shared_lists": 20000, "pinned_lists": 500},
    ),
    "P26": dict(
        passes=[native(14, 240), asan(8, 120), miri(8, 120), msan(0, 120)],
        rule="several lazy trees and snapshots of them over one archive, in every state of loading: random reads, operations and second archives compared with the reference map; opening and lookups watched for loaded values (clones), "
        "loaded child lists and memory, never more than those on the path and none twice; results of operations on archived trees read after the archive has been overwritten and freed. "
        "Non-trivial: non-empty archive; distinct: contents and accesses",
        assumptions=COMMON + ["loading a node clones its value (so clones count loads)"],
        min={"evaluations": 1000, "distinct": 500, "reads": 2000, "compared": 2000, "lookups": 5000, "opened": 500, "left_unloaded": 1000, "detached": 300},
    ),
    "P28": dict(
        passes=[native(10, 240), asan(14, 180), miri(12, 240), msan(0, 120)],
        rule="every iterator of sets, maps, ordered maps and trees of all flavours (native and archived, by reference and owned, prefix scans and values), several at a time, advanced by next, nth, take, count, last and collect, stopped "
        "anywhere; each item compared with the sorted contents, the size hint with what remains; random items are kept while the iteration goes on, after the iterator and (owned) the collection are gone and after other copies "
        "changed, and read again; merges and joins of sorted_iter over the iterators compared with the standard sets and maps. Non-trivial: two items or more; distinct: contents",
        assumptions=COMMON + ["AddressSanitizer and Miri see reads of items that are gone", "sorted_iter merges sorted inputs correctly"],
        min={"evaluations": 1000, "distinct": 500, "iterations": 5000, "items": 30000, "kept_checked": 50000, "hints": 10000, "merges": 500, "joins": 500, "complete": 1000},
    ),
    "P27": dict(
        passes=[native(10, 240, workers=4), tsan(20, 400, workers=4), miri(25, 400, mac=True), asan(0, 120, workers=4)],
        rule="two to six threads with clones of one shared or lazy tree (opened from an archive and loaded to any extent) read, scan, snapshot, edit by every operation, archive, exchange and drop them, each against its own "
        "reference map; simultaneous first loads: identity of every child list across threads and loads per value; live values at the end; ThreadSanitizer and Miri (other schedules per case) watch for races, a watchdog for "
        "sleeping threads. Non-trivial: non-empty tree; distinct: contents and the observed order of the threads' operations",
        assumptions=["ThreadSanitizer sees races on the schedules that happened, with the standard library instrumented", "Miri explores one random schedule per case", "the operating system's and injected yields and spins diversify schedules"] + COMMON,
        min={"evaluations": 500, "distinct": 300, "operations": 5000, "switches": 500, "loaders": 300, "lists_compared": 2000, "handed_over": 300, "droppers": 200, "histories": 300},
    ),
    "P25": dict(
        passes=[native(14, 300), asan(6, 150), miri(0, 150), msan(0, 120)],
        rule="random histories of edits, saves (some of which fail for lack of room and are repeated), reloads from any saved version, compactions and returns to earlier snapshots with the registries of examples/radix_db.rs (which "
        "count); per save: the lists written are exactly those reachable and not yet in the archive, bytes at most what these account for, nothing but the root for an unchanged tree; every version is read back from "
        "the archive cut after its save (deserialised, in place, converted, validated where rkyv can) and compared with the recorded contents, distinct lists after loading with those at the save. "
        "Lazy trees likewise: opened over any version, partly read, edited, saved behind it, reverted to snapshots in any state of loading. "
        "Non-trivial: two saves, one of two keys or more; distinct: the operations with key counts",
        assumptions=COMMON + ["the archive is kept whole up to the cut and the written lists are pinned with all_arcs, as in the example"],
        min={"evaluations": 500, "distinct": 300, "saves": 3000, "versions_read": 3000, "reloads": 300, "compactions": 300, "lists_reused": 5000, "unchanged_saves": 300, "failed_saves": 100, "grafts": 200, "loaded_together": 500, "read_in_place": 1000, "lazy_saves": 2000, "lazy_reopened": 500, "lazy_versions_read": 3000},
    ),
    "P29": dict(
        passes=[native(15, 240)],
        rule="comparisons of key symbols, clones of values and allocations counted for lookups, prefix scans, whole iterations, prefix filters, prepending, edits by one to three entries (every in place operation), "
        "combinations and relations of two trees of any size and relations with an early counterexample, on trees of all flavours with up to 256 children per node, long labels and deep paths; each against a bound "
        "made of the key length and the numbers of children on its path (or of nodes and label symbols). Non-trivial: more than three entries; distinct: keys, sizes and counts",
        assumptions=COMMON + ["the constants of the bounds are ours (search 2 per symbol, 2 log per list, 3 per node; edits 4, 6 log, 16; combinations 5 per node and symbol; early exits 2 log^2 + 24 per key before the counterexample)"],
        min={"evaluations": 500, "distinct": 300, "searches": 2000, "cuts": 500, "edits": 1000, "combinations": 1000, "early_exits": 50, "archived": 50},
    ),
}
