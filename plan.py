"""Which cases decide which property, with their bounds."""
COVER = {1: "end of the case", 10: "put", 11: "delete of a present key", 12: "delete of an absent key", 13: "get of a present key", 14: "get of an absent key", 20: "a free value record", 21: "a free key record", 22: "a free node", 30: "a lookup entry is missing", 40: "iter()", 41: "iter_mut()", 42: "into_iter() of a reference", 43: "into_iter() of a mutable reference", 44: "into_iter() by value", 45: "keys and values separately", 50: "nothing changed", 51: "saved while open", 46: "an empty map", 60: "bulk put", 61: "bulk get", 62: "bulk delete", 70: "first key smaller", 71: "first key greater", 72: "keys equal", 80: "an injected fault fired", 81: "a save failed", 82: "an operation failed", 90: "an fsync happened", 95: "occupied lookup slots", 101: "tree of one level", 102: "tree of two levels", 103: "tree of three levels", 104: "tree of four levels"}
BUDGET = {"quick": 700, "thorough": 7200}
ASSUME = [
    "rustc's optimised LLVM IR (opt-level 1, debug assertions and overflow checks on) is the code that is checked; the executor's semantics of that IR is compared with native runs of solver-chosen inputs on every run",
    "single thread; the allocator never fails",
    "the file system is modelled at the level of read/write/seek/truncate/fsync calls on sparse byte files",
]
ASSUME_P = {}
BOUNDS = {}
PLAN = {}
NOT_APPLICABLE = []
def item(name, variant, *case, **kw):
    return dict(name=name, variant=variant, case=list(case) + [0] * (5 - len(case)), **kw)
def add(pid, bounds, quick, thorough):
    BOUNDS[pid] = bounds
    PLAN[pid] = {"quick": quick, "thorough": quick + thorough}

# Case arguments of history cases (101, 105, 201, 301, 401, 501, 1401, 1501, 1601, 1701): a = keys put first; b = symbolic operations
# + 100 * value lengths + 10000 * kinds of operations; c = insertion order + 100 * thinning (9999: any of 4 orders and 9 thinnings); a = 100000 + 1000 * lo + hi: any number from lo to hi; d = hash mode + 100 * window (keys near the lowest,
# middle and highest key only).
ALL = [10, 11, 12, 13, 14]

add("C01",
    "trees of any number of keys from 0 to 60 (6-slot nodes, up to 4 levels; up to 14 keys in any of 4 insertion orders and 9 ways of thinning) and 63..130 keys (64-slot nodes; keys near the lowest, middle and highest stored key), then 1-2 operations whose kind, key (present or absent), value bytes and value length class are symbolic, and afterwards a lookup of a symbolic key; up to 3 operations from the empty map with integer keys over all 64 bits, byte keys of length 0..3, strings of up to two letters; flush/sync/iteration/read_fill_buffer in between; trees of 900 (6-slot nodes), 2100 and 8000 keys (64-slot nodes; 20000 thorough) changed near the lowest, middle and highest key",
    [item("history-n0", "small", 101, 0, 3, 0, 0, must=[10, 11, 12, 13, 14]),
     item("history-n4", "small", 101, 4, 2, 0, 0, must=ALL),
     item("history-n30", "small", 101, 30, 1, 2, 0, must=ALL),
     item("history-n30-thinned", "small", 101, 30, 1, 300, 0, must=ALL),
     item("history-n16-slots", "small", 101, 16, 1, 200, 3, must=ALL),
     item("history-any-n", "small", 101, 100060, 1, 0, 200, must=ALL), item("history-any-shape", "small", 101, 100014, 1, 9999, 3, must=ALL),
     item("history-n63", "def", 101, 63, 1, 0, 800, must=ALL),
     item("history-n95-thinned", "def", 101, 95, 1, 100, 800, must=ALL),
     item("history-n66-thinned", "def", 101, 66, 1, 400, 800, must=ALL),
     item("int-keys", "small", 102, 2, 4, must=[10]),
     item("int-keys-1slot", "small", 102, 3, 2, must=[10]),
     item("byte-keys", "small", 103, 3, 1, 3),
     item("string-keys", "small", 104, 3, 2),
     item("mixed-calls", "small", 105, 2, 1, must=ALL),
     item("history-2100", "def", 106, 2100, 1, 0, 203), item("history-8000-shuffled", "def", 106, 8000, 1, 5, 203), item("history-900-thinned", "small", 106, 900, 2, 700, 203)],
    [item("history-n0-4ops", "small", 101, 0, 4, 0, 0), item("history-n4-3ops", "small", 101, 4, 3, 0, 0), item("history-n12-2ops", "small", 101, 12, 2, 0, 1), item("history-n12-2ops-slots", "small", 101, 12, 2, 0, 3),
     item("history-n30-slots", "small", 101, 30, 1, 0, 3), item("history-n30-thinned-2", "small", 101, 30, 2, 300, 200), item("history-n63-all", "def", 101, 63, 1, 0, 0), item("history-n64-2ops", "def", 101, 64, 2, 0, 300),
     item("history-n64-all", "def", 101, 64, 1, 0, 3), item("history-n130", "def", 101, 130, 1, 0, 600), item("byte-keys-2", "small", 103, 2, 2, 9), item("mixed-calls-2", "small", 105, 2, 2),
     item("history-sizes", "small", 101, 12, 2, 100, 100003), item("history-20000", "def", 106, 20000, 1, 0, 203, steps=3_000_000_000)])

add("C02",
    "trees of any number of keys from 0 to 60 (6-slot nodes; up to 40 keys in any of 4 insertion orders and 9 ways of thinning) and 63..95 keys (64-slot nodes) changed by 0-2 symbolic operations, iterated in every way the interface offers (by reference, by mutable reference, by value), past the end, with two iterators, lookups and reports between the steps; trees of 2100 and 8000 keys; values of many sizes",
    [item("iterate-n4-2ops", "small", 201, 4, 2, 0, 0, must=[40, 41, 42, 43, 44]),
     item("iterate-n0", "small", 201, 0, 2, 0, 0, must=[46]),
     item("iterate-any-n", "small", 201, 100060, 0, 0, 200), item("iterate-any-n-1op", "small", 201, 100036, 1, 2, 200), item("iterate-any-n-thinned", "small", 201, 100060, 0, 303, 200), item("iterate-any-shape", "small", 201, 100040, 0, 9999, 0),
     item("iterate-n16-thinned", "small", 201, 16, 1, 200, 0),
     item("iterate-n30", "small", 201, 30, 1, 300, 0),
     item("iterate-n5-emptied", "small", 201, 5, 1, 500, 0, must=[46]),
     item("iterate-n63", "def", 201, 63, 1, 0, 400),
     item("iterate-n70-thinned", "def", 201, 70, 1, 300, 400),
     item("every-step", "small", 202, 4, 1),
     item("interleaved", "small", 203, 0, 3),
     item("iterate-2100", "def", 106, 2100, 101, 5, 203), item("iterate-8000-thinned", "def", 106, 8000, 101, 705, 203), item("iterate-sizes", "small", 201, 12, 1, 100, 100003)],
    [item("iterate-n4-3ops", "small", 201, 4, 3, 0, 0), item("iterate-n12-2ops", "small", 201, 12, 2, 0, 200), item("every-step-2", "small", 202, 4, 2), item("interleaved-4", "small", 203, 3, 4), item("iterate-n130", "def", 201, 130, 1, 0, 400)])

add("C03",
    "0-12 base keys, optionally saved, then 1-2 symbolic operations (put, overwrite, delete, lookup), then flush, sync_all or sync_data of the map or the database, end of the process without running any destructor, and reopening; rounds of single changes and saves; databases of three maps of different types, and of six maps (two of each type) of which any subset of up to two is changed; released large records reused before the save; values of many sizes; a tree of 2100 keys (8000 thorough)",
    [item("persist-n2", "small", 301, 2, 1, 0, 0), item("persist-n0", "small", 301, 0, 2, 0, 0), item("persist-n5-thinned", "small", 301, 5, 1, 100, 3),
     item("rounds-n2", "small", 302, 2, 0), item("rounds-n2-len", "small", 302, 2, 3, 1, 0),
     item("whole-db-2", "small", 303, 2, 0), item("whole-db-base", "small", 303, 1, 1),
     item("persist-n66", "def", 301, 66, 1, 0, 300), item("persist-any-n", "small", 301, 100004, 10001, 0, 3),
     item("persist-2100", "def", 106, 2100, 201, 0, 203), item("persist-pieces", "small", 305, 3, 2, 0, 3), item("persist-pieces-keys", "small", 305, 3, 1, 1, 3), item("six-maps", "small", 304, 0, 2, must=[51]), item("persist-sizes", "small", 301, 4, 1, 0, 100003)],
    [item("persist-any-n-6", "small", 301, 100006, 10001, 0, 3), item("persist-n4-2ops", "small", 301, 4, 2, 0, 0), item("persist-n12", "small", 301, 12, 1, 0, 3), item("rounds-3", "small", 302, 3, 2), item("whole-db-3", "small", 303, 3, 0), item("whole-db-2-base", "small", 303, 2, 1),
     item("persist-sizes-6", "small", 301, 6, 1, 0, 100003), item("six-maps-3", "small", 304, 0, 3), item("persist-8000", "def", 106, 8000, 201, 705, 203, steps=2_000_000_000)])

add("C04",
    "6-slot nodes: any put or delete on trees of any number of keys up to 60 (4 levels), and up to 40 keys in any of 4 insertion orders and after any of 9 ways of thinning, and the whole build-up and tear-down of small trees; 64-slot nodes: 63..130 keys with operations near the lowest, middle and highest key; checked with the map's own reports and with an independent reader of the index file; trees of 900 keys (6-slot nodes) and 2100 and 4200 keys (64-slot nodes; 20000 thorough), also thinned, changed near the lowest, middle and highest key",
    [item("tree-n30", "small", 401, 30, 2, 0, 200), item("tree-n30-thinned", "small", 401, 30, 1, 300, 0), item("tree-n24-thinned", "small", 401, 24, 1, 102, 0), item("tree-n13", "small", 401, 13, 1, 1, 0), item("tree-n18-thinned", "small", 401, 18, 1, 700, 0),
     item("every-step", "small", 402, 6, 2), item("tree-any-n", "small", 401, 100060, 1, 0, 200), item("tree-any-n-thinned", "small", 401, 100060, 1, 303, 200), item("tree-any-shape", "small", 401, 100040, 10001, 9999, 0), item("tree-any-key", "small", 401, 100060, 10001, 2, 0), item("tree-n63", "def", 401, 63, 1, 0, 800), item("tree-n95", "def", 401, 95, 1, 100, 800), item("tree-n130", "def", 401, 130, 1, 300, 400),
     item("tree-2100", "def", 106, 2100, 301, 0, 203), item("tree-2100-shuffled", "def", 106, 2100, 301, 705, 203), item("tree-4200-thinned", "def", 106, 4200, 301, 101, 203), item("tree-900", "small", 106, 900, 301, 5, 203), item("tree-900-thinned", "small", 106, 900, 301, 705, 203)],
    [item("tree-n30-2ops", "small", 401, 30, 2), item("every-step-3", "small", 402, 6, 3), item("tree-n12-3ops", "small", 401, 12, 3, 0, 200), item("tree-n64-2ops", "def", 401, 64, 2, 0, 300), item("tree-n100", "small", 401, 100, 1, 0, 300),
     item("tree-8000", "def", 106, 8000, 301, 5, 203), item("tree-20000", "def", 106, 20000, 301, 0, 203, steps=3_000_000_000)])

add("C05",
    "0-40 base keys (up to 30 in any of 4 insertion orders and after any of 9 ways of thinning), then up to 3 symbolic operations with values of lengths chosen from eight sizes around the record size classes; the four files are read back by an independent reader that accounts for every byte; put/delete and grow/shrink cycles must not make the files grow after the first rounds; up to 3 of 4 records of 1100 to 5000 bytes (values or keys) released in any order, then 2 of any of six sizes put; base values of many sizes; a tree of 2100 keys",
    [item("space-n4", "small", 501, 4, 2), item("space-any-n", "small", 501, 100040, 1, 300, 200), item("space-any-shape", "small", 501, 100030, 10001, 9999, 3), item("large-pieces", "small", 505, 3, 2, 0, 3), item("large-pieces-keys", "small", 505, 3, 2, 1, 3), item("space-n0", "small", 501, 0, 2, 0, 0), item("space-n12-thinned", "small", 501, 12, 1, 200, 3), item("space-n4-lens", "small", 501, 4, 301, 0, 0), item("cycles", "small", 502, 3, 1), item("regrow", "small", 503, 0, 0), item("key-space", "small", 504, 2, 0),
     item("space-n66", "def", 501, 66, 1, 300, 400),
     item("space-2100", "def", 106, 2100, 401, 705, 203), item("space-sizes", "small", 501, 6, 2, 0, 100000), item("space-sizes-thinned", "small", 501, 10, 1, 300, 100003), item("space-large-thinned", "small", 501, 8, 2, 200, 200003)],
    [item("large-pieces-4", "small", 505, 4, 3, 0, 3), item("space-n4-3ops", "small", 501, 4, 3), item("space-n2-3ops-lens", "small", 501, 2, 302, 0, 0), item("cycles-5", "small", 502, 5, 2), item("key-space-3", "small", 504, 3, 0), item("regrow-1", "small", 503, 1, 3)])

add("C06",
    "every assignment of up to 3 lookup slots to the keys of a history of up to 3 symbolic operations; any subset of the lookup entries of up to 4 keys lost while the map is closed, then up to 2 operations; keys that share a slot deleted and inserted again around a reopening; keys over all 64 bits with the real hash functions; hash numbers at both ends of the range and around the size of the table; the empty key among the keys",
    [item("any-hash", "small", 601, 3, 3, 3), item("lost-entries", "small", 602, 4, 1, 2, must=[30]), item("lost-entries-1slot", "small", 602, 3, 1, 0), item("crossed", "small", 603, 2, 0), item("int-keys", "small", 102, 2, 4, must=[10]), item("history-1slot", "small", 101, 6, 1, 0, 0, must=ALL), item("history-2slots", "small", 101, 6, 1, 0, 1, must=ALL), item("vu64", "def", 601, 2, 3, 2),
     item("any-hash-ends", "small", 601, 2, 3, 0, must=[10, 11, 12, 13, 14])],
    [item("any-hash-4", "small", 601, 4, 3, 3), item("any-hash-4keys", "small", 601, 3, 4, 4), item("lost-entries-2ops", "small", 602, 4, 2, 2), item("crossed-3", "small", 603, 3, 0)])

add("C07",
    "two keys with every byte symbolic, of every pair of lengths 0..8, for string, byte and integer keys; two integer keys over all 64 bits; conversions from raw bytes, arrays, strings and integers; up to 3 symbolic keys stored, iterated and read back after reopening",
    [item("laws-string", "def", 701, 8, 8, 0, must=[70, 71, 72]), item("laws-bytes", "def", 701, 8, 8, 1, must=[70, 71, 72]), item("laws-int", "def", 701, 8, 8, 2, must=[70, 71, 72]),
     item("convert-string", "def", 702, 3, 0), item("convert-bytes", "def", 702, 8, 1), item("convert-int", "def", 702, 9, 2), item("integers", "def", 703),
     item("stored-string", "def", 704, 3, 2, 0), item("stored-bytes", "def", 704, 3, 2, 1), item("stored-int", "def", 704, 3, 8, 2)],
    [item("laws-string-33", "def", 701, 33, 33, 0), item("laws-bytes-33", "def", 701, 33, 33, 1), item("stored-string-4", "def", 704, 4, 3, 0), item("stored-bytes-4", "def", 704, 4, 3, 1)])

add("C08",
    "batches of 2-3 pairs whose keys are any 64-bit numbers (so that every order and every repetition occurs), on empty maps and over up to 30 base keys, file and memory maps; string variants; batches of 30 pairs with two symbolic keys; batches of 16 to 300 and of 4097 pairs (70000 thorough) in three orders, with and without repetitions",
    [item("bulk-int", "def", 801, 2, 0, 2, 0, must=[60, 61, 62]), item("bulk-int-3", "def", 801, 3, 3, 2, 0), item("bulk-mem-int", "def", 801, 3, 0, 2, 1), item("bulk-mem-bytes", "def", 801, 3, 0, 0, 2),
     item("strings-0", "def", 802, 2, 0), item("strings-1", "def", 802, 2, 1), item("strings-2", "def", 802, 2, 2), item("many", "def", 803, 30, 0), item("many-mem", "def", 803, 30, 1), item("over-tree", "small", 804, 2, 4), item("over-empty", "small", 804, 3, 2, 0, 1),
     item("long", "def", 805, 0, 0), item("long-mem", "def", 805, 0, 1), item("long-4097", "def", 805, 4097, 1)],
    [item("strings-3-1", "def", 802, 3, 1), item("strings-3-0", "def", 802, 3, 0), item("bulk-int-3-any", "def", 801, 3, 0, 2, 0), item("over-tree-12", "small", 804, 2, 12), item("over-tree-3", "small", 804, 3, 4),
     item("long-70000", "def", 805, 70000, 1, steps=5_000_000_000)])

add("C09",
    "two maps of one database with any two different names of up to 3 characters drawn from a small alphabet and the same or different types, two databases one inside the other, five handles of one map obtained in every way; up to 3 symbolic operations in any order; 3 operations with integer keys over all 64 bits and symbolic values over two maps, a map of the same name in another database and a second handle; six maps, any two of them changed, under one sync",
    [item("maps-same-type", "def", 901, 2, 0), item("maps-2", "def", 901, 2, 1), item("maps-types", "def", 901, 1, 2), item("two-dbs", "def", 902, 3), item("handles-1", "def", 903, 2, 1), item("handles-2", "def", 903, 2, 2), item("sync-of-all", "small", 303, 2, 0),
     item("six-maps", "small", 304, 0, 2, must=[51]), item("isolated-int", "def", 904, 3, 1, must=[10, 11, 12]), item("isolated-int-2slots", "def", 904, 2, 2, must=[10, 11, 12])],
    [item("isolated-int-3", "def", 904, 3, 2), item("handles-0", "def", 903, 3, 0), item("two-dbs-4", "def", 902, 4), item("maps-3", "def", 901, 3, 1)])

add("C10",
    "any change of any one signature byte, and of all eight bytes of a signature, of any of the four files; every pair of key types, with the original open or closed; any operation sequence short of a change after opening; files of 1..300 bytes with symbolic content, and another file of the same map, in the place of one of the four",
    [item("bad-byte", "small", 1001, 1, 0), item("bad-signature", "small", 1001, 2, 1), item("wrong-type", "small", 1002, 1, 0), item("wrong-type-open", "small", 1002, 1, 1), item("own-type", "small", 1003, 3, 1)]
    + [item("foreign-%d-%d" % (l, h), "small", 1004, l, h) for l, h in ((1, 0), (8, 0), (15, 0), (20, 0), (200, 0), (7, 1), (200, 1), (300, 2))]
    + [item("own-type-pieces", "small", 1703, 2, 1, 0, 3), item("own-type-pieces-keys", "small", 1703, 2, 1, 1, 3)],
    [item("bad-byte-3", "small", 1001, 3, 0)] + [item("foreign-%d-%d" % (l, h), "small", 1004, l, h) for l, h in ((7, 0), (127, 0), (128, 0), (300, 0), (1, 1), (20, 1), (8, 2), (200, 2))])

add("C11",
    "2-3 symbolic operations with symbolic keys of every length up to 2 (strings, bytes) or 8 (integers), on a file map and a memory map side by side; 3 operations over ten handles of seven memory maps; 2 calls of any kind (single, bulk, string calls) side by side; 3 memory maps with any names of up to 2 printable characters",
    [item("string", "def", 1101, 2, 2, 0, 1, must=[10, 11, 13]), item("bytes", "def", 1101, 2, 2, 1, 1, must=[10, 11, 13]), item("bytes-3", "def", 1101, 3, 1, 1, 1), item("int", "def", 1101, 2, 3, 2, 2), item("maps", "def", 1102, 3), item("bulk-mem", "def", 801, 3, 0, 2, 1), item("strings-mem", "def", 802, 2, 1), item("strings-mem-2", "def", 802, 2, 2),
     item("all-calls-string", "def", 1103, 2, 0, 6, must=[10, 60, 61, 62]), item("all-calls-bytes", "def", 1103, 2, 1, 2), item("all-calls-int", "def", 1103, 2, 2, 6), item("names", "def", 1104, 3, 2, must=[72])],
    [item("bytes-slots", "def", 1101, 2, 1, 1, 3), item("int-8", "def", 1101, 2, 8, 2, 2), item("string-3", "def", 1101, 3, 1, 0, 1),
     item("names-4", "def", 1104, 4, 2), item("all-calls-int-3", "def", 1103, 3, 2, 6), item("all-calls-string-3", "def", 1103, 3, 0, 6)])

add("C12",
    "values and keys of some 60 lengths from 0 to 200000 (every boundary of the record size classes and of the buffer chunks, one below and one above) in pairs: put, overwrite, reopen, delete, between neighbours, with symbolic bytes at the start, middle and end",
    [item("val-%d-%d-%d" % p, "def", 1201, p[0], p[1], p[2], 3) for p in ((0, 0, 0), (0, 1, 1), (1, 2, 0), (3, 0, 2), (2, 3, 0), (4, 0, 0), (0, 4, 1), (6, 5, 0))]
    + [item("key-%d-%d" % p, "def", 1202, p[0], p[1], 0, 0) for p in ((0, 0), (1, 0), (2, 6), (3, 6), (0, 4))]
    + [item("neighbours", "def", 1203, 2, 2, 6, 0), item("neighbours-3", "def", 1203, 3, 2, 6, 1), item("every-val", "def", 1204, 0, 2300, 0, 0), item("every-key", "def", 1204, 0, 1500, 1, 0)],
    [item("every-val-2", "def", 1204, 2300, 9300, 0, 0), item("every-key-2", "def", 1204, 1500, 4500, 1, 0), item("val-5-5", "def", 1201, 5, 5, 0, 3), item("val-4-4", "def", 1201, 4, 4, 1, 3), item("val-1-3", "def", 1201, 1, 3, 0, 1), item("key-4-4", "def", 1202, 4, 4, 0, 0), item("key-5-1", "def", 1202, 5, 1, 0, 0), item("key-1-3", "def", 1202, 1, 3, 0, 0), item("neighbours-3ops", "def", 1203, 2, 3, 6, 0)])

add("C13",
    "every pair of 12 buffer settings (each kind of setting, including the smallest and the largest), 2 symbolic operations with read_fill_buffer, flush or sync in between, reopening under the other setting and one more operation; 180 KB of data under small buffers",
    [item("settings-n0", "def", 1301, 0, 1, 0, 0), item("settings-n2-0", "def", 1301, 2, 1, 0, 1), item("settings-n2-8", "def", 1301, 2, 1, 0, 8), item("big-2", "def", 1302, 20, 9000, 2), item("big-8", "def", 1302, 20, 9000, 8), item("big-1", "def", 1302, 20, 9000, 1), item("mixed-calls", "small", 105, 2, 1, must=ALL)],
    [item("settings-n2", "def", 1301, 2, 1, 0, 0), item("settings-n0-2", "def", 1301, 0, 2, 0, 0), item("big-3", "def", 1302, 30, 9000, 3), item("big-7", "def", 1302, 30, 9000, 7), item("mixed-calls-2", "small", 105, 2, 2)])

add("C14",
    "the n-th write, truncation or fsync (n = 0..7, any one kind or any kind) of a flush or sync fails, after 0-4 base keys (saved or not) and 1-2 symbolic operations, with a retry of any kind; the same for a database of three maps (n = 0..15), for the creation of a map, and for writes that small buffers cause inside a put or delete; faults that write a part first, and faults that stay; six maps with any one of the saves failing; values of many sizes",
    [item("save-n2", "small", 1401, 2, 1, 0, 0, must=[80, 81]), item("save-n0-2ops", "small", 1401, 0, 2, 0, 0, must=[80, 81]), item("save-synced", "small", 1401, 2, 1, 1000, 0, must=[80, 81]), item("save-n66", "def", 1401, 66, 1, 1000, 300),
     item("save-any-n", "small", 1401, 100008, 10001, 100, 3), item("save-db", "small", 1403, 2, 7, must=[80, 81]), item("save-db-fsync", "small", 1403, 2, 4, must=[80, 81]), item("save-db-write", "small", 1403, 2, 1, must=[80, 81]), item("new-map", "small", 1404, 1, must=[81]),
     item("put-0", "def", 1402, 20, 9000, 0, 2, must=[80, 82]), item("delete-0", "def", 1402, 20, 9000, 11, 2, must=[80, 82]), item("put-1", "def", 1402, 20, 9000, 10, 2, must=[80, 82]),
     item("six-maps", "small", 304, 1, 1, must=[80, 81]), item("save-sizes", "small", 1401, 4, 1, 1000, 100003)],
    [item("save-n2-2ops", "small", 1401, 2, 2, 0, 0), item("save-n4-2ops", "small", 1401, 4, 2, 0, 0), item("save-n4-synced", "small", 1401, 4, 2, 1000, 0), item("save-db-3", "small", 1403, 3, 7), item("new-map-2", "small", 1404, 2), item("delete-1", "def", 1402, 20, 9000, 1, 2),
     item("six-maps-2", "small", 304, 1, 2)])

add("C15",
    "0-4 base keys, unsaved, flushed, synced or from an earlier opening, 1-2 symbolic operations, a flush, lookups or none, then a sync and a power loss that undoes every write not followed by an fsync of that file; rounds of change, flush, sync, power loss; databases of three and of six maps; released large records reused before the save",
    [item("power-n2", "small", 1501, 2, 1, 0, 0, must=[90]), item("power-n0", "small", 1501, 0, 2, 0, 0, must=[90]), item("power-n5-thinned", "small", 1501, 5, 1, 100, 3, must=[90]), item("power-n66", "def", 1501, 66, 1, 0, 300, must=[90]),
     item("power-any-n", "small", 1501, 100012, 10001, 100, 3), item("rounds-n2", "small", 1503, 2, 2, 0, 3), item("rounds-n0", "small", 1503, 2, 0, 0, 0), item("db", "small", 1502, 2, 0), item("db-flush", "small", 1502, 2, 1), item("db-sync", "small", 1502, 2, 2),
     item("six-maps", "small", 304, 2, 2), item("power-pieces", "small", 1504, 3, 1, 0, 3), item("power-pieces-keys", "small", 1504, 2, 1, 1, 3)],
    [item("power-n2-2ops", "small", 1501, 2, 2, 0, 0), item("power-n4-2ops", "small", 1501, 4, 2, 0, 0), item("rounds-n2-0", "small", 1503, 2, 2, 0, 0), item("db-3", "small", 1502, 3, 1), item("db-3-sync", "small", 1502, 3, 2),
     item("power-sizes", "small", 1501, 6, 1, 100, 100003), item("six-maps-3", "small", 304, 2, 3)])

add("C16",
    "0-30 base keys (up to 24 in any of 4 insertion orders and after any of 9 ways of thinning), up to 2 symbolic operations with values of several size classes; every report compared with an independent reader of the four files, a lookup table of 16 slots counted slot by slot; a tree of 2100 keys; large records released and reused; values of many sizes",
    [item("reports-n4", "small", 1601, 4, 2, 0, 0, must=[95]), item("reports-n0", "small", 1601, 0, 2, 0, 0, must=[46]), item("reports-n12", "small", 1601, 12, 1, 0, 3, must=[95]), item("reports-n30-thinned", "small", 1601, 30, 1, 300, 0), item("reports-any-shape", "small", 1601, 100024, 10001, 9999, 3), item("reports-lens", "small", 1601, 3, 302, 0, 0), item("reports-n66", "def", 1601, 66, 1, 300, 400),
     item("reports-2100", "def", 106, 2100, 501, 100, 203), item("reports-pieces", "small", 1602, 3, 2, 0, 3), item("reports-pieces-keys", "small", 1602, 3, 2, 1, 3), item("reports-sizes", "small", 1601, 8, 1, 100, 100003)],
    [item("reports-n4-3ops", "small", 1601, 4, 3, 0, 0), item("reports-n12-2ops", "small", 1601, 12, 2, 0, 203), item("reports-n63", "def", 1601, 63, 1, 0, 800), item("reports-n130", "def", 1601, 130, 1, 300, 400)])

add("C17",
    "0-12 base keys, up to one symbolic change, then each kind of reading with symbolic keys, with or without reopening; bytes of the key, value and index files compared before and after, after a flush or sync and after dropping the map; the same on maps with released large records and values of many sizes",
    [item("reading-n12", "small", 1701, 12, 0, 0, 0, must=[12]), item("reading-n1-1op", "small", 1701, 1, 1, 0, 0, must=ALL), item("reading-n0", "small", 1701, 0, 0, 0, 0), item("reading-any-n", "small", 1701, 100006, 0, 0, 3), item("reading-any-n-thinned", "small", 1701, 100012, 0, 100, 0), item("reading-n9-thinned", "small", 1701, 9, 0, 100, 3), item("db", "small", 1702, 3, 3), item("own-type", "small", 1003, 3, 1),
     item("reading-pieces", "small", 1703, 2, 1, 0, 3), item("reading-pieces-keys", "small", 1703, 2, 1, 1, 3), item("reading-sizes", "small", 1701, 6, 0, 100, 100003)],
    [item("reading-n4-1op", "small", 1701, 4, 1, 0, 0), item("reading-n6-1op", "small", 1701, 6, 1, 100, 3), item("reading-n63", "def", 1701, 63, 0, 0, 400), item("db-4", "small", 1702, 4, 3)])
