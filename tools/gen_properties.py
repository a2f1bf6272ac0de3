#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, os
D = "src/filedb/inner/dbxxx.rs"; I = "src/filedb/inner/idx.rs"; K = "src/filedb/inner/key.rs"
V = "src/filedb/inner/val.rs"; H = "src/filedb/inner/htx.rs"; P = "src/filedb/inner/piece.rs"
F = "src/filedb/inner/vfile.rs"; T = "src/filedb/inner/tr.rs"; N = "src/filedb/inner/nc.rs"; O = "src/filedb/inner/offidx.rs"
L = "src/lib.rs"; M = "src/memdb.rs"; FM = "src/filedb/mod.rs"; IM = "src/filedb/inner/mod.rs"; DM = "src/filedb/dbmap/mod.rs"
KB="src/filedb/dbmap/kt_dbbytes.rs"; KI="src/filedb/dbmap/kt_dbint.rs"; KS="src/filedb/dbmap/kt_dbstring.rs"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A file map behaves as an ordinary map after any history",
  "After any sequence of put, delete and get on a file-backed map, a lookup returns exactly the value of the most recent put of that key that was not followed by a delete, and nothing for every other key. A delete returns the value it removes (nothing if the key is absent), and no operation panics, hangs, reports an error on a healthy disk, or changes any key other than its own.",
  ["histories", "inputs"], "all sequences of put/delete/get over all keys and values, from an empty map or from any map built earlier (any tree shape: single node, many nodes, several levels)",
  "Tests replay a few fixed histories; splits, rotations, merges, in-place overwrites and relocations depend on the order of keys and sizes of values in ways a handful of histories never combine.",
  [D, I, K, V, H, T, N], [("B-tree insert/split/balance/delete/trim", D), ("hash-cache fast path on get and put", D), ("in-place overwrite or relocate of a record", V), ("node write with relocation", I)],
  ["DbXxx::put/get/delete and DbXxxObjectSafe::*_kt results"], "cfg(siamesedb_verif): public constructor of a map with a caller-supplied key type")

p("C02", "Iteration yields every entry exactly once in ascending key order",
  "Iterating a file map (by shared reference, by mutable reference, or by value) yields each stored key with its current value exactly once, in strictly ascending key order, then ends and stays ended; on an empty map it ends at once. Iterating never panics and never changes the stored contents.",
  ["histories", "inputs"], "all histories leading to any map contents and tree shape, including the empty map and a map emptied by deletes",
  "Tests iterate a few maps built in fixed orders; which nodes the cursor must climb through depends on the tree shape left by the history.",
  [D, T, I], [("iterator stack of nodes", D), ("clones of a map handle share one store", DM)], ["DbMap::iter, DbMap::iter_mut, IntoIterator items"])

p("C03", "Contents survive sync or flush and reopening",
  "Once flush, sync_all or sync_data (on the map or on the whole database) has returned Ok, reopening the same directory shows exactly the contents the map had at that moment, with every later operation behaving as on the original. This holds for any history, also when the only change since the last sync was an overwrite, a first insert or a delete, and syncing twice or with no change is harmless.",
  ["histories", "inputs"], "all histories of operations interleaved with flush/sync_all/sync_data/close/reopen",
  "Tests sync once after bulk insertion and never combine small changes, repeated syncs and reopening.",
  [D, IM, F, V, K, I, H], [("dirty gate in front of flush and sync", D), ("node cache write-back", N), ("buffered file write-back", F), ("database-wide sync applied to every open map", IM)],
  ["contents after dropping every handle and FileDb::open again"], None,
  [("dirty", "whether anything must be written out", D)])

p("C04", "The index stays a valid balanced search tree after every operation",
  "After every operation of any history, the index of a file map is a search tree ordered by key whose leaves are all at the same depth and whose inner nodes other than the root are at least half full, and the map's own consistency reports (balanced, search-tree-valid, dense) all say so. The index holds exactly one entry per stored key.",
  ["histories", "inputs"], "all histories of put and delete, from empty or from any reachable tree of any depth",
  "Tests call the consistency reports after one fixed insertion and deletion order; a mis-balanced node appears only for particular deletion positions in trees of particular shapes.",
  [D, I, T], [("split on overflow", D), ("borrow/merge on underflow", D), ("replacement of an inner key on delete", D)], ["CheckFileDbMap reports", "an independent walk of the index file bytes"])

p("C05", "Storage space is never shared, lost or corrupted",
  "After any history, every byte range of the key, value and index files belongs either to exactly one live record or node or to exactly one entry of a free list (or is the header), with no overlap, no cycle and no gap; each live record's stored size is large enough for its content. Space released by delete or relocation is available to later inserts, so repeating the same put/delete cycle does not grow the files without bound.",
  ["histories", "inputs"], "all histories of put, overwrite with any larger or smaller value, and delete",
  "Tests only read back values; two records sharing space or leaked space shows only when a later insert of a particular size reuses it.",
  [P, V, K, I], [("size-class rounding and free lists", P), ("reuse or relocate on overwrite", V), ("free lists of the index", I)], ["on-disk bytes of the .key/.val/.idx files after sync", "CheckFileDbMap counts"])

p("C06", "The hash lookup table never changes any answer",
  "Every lookup, insert and delete gives the same result whatever hash values the keys have: keys with equal or colliding hashes, missing entries in the lookup table, and keys that were deleted and re-inserted never lead to a wrong value, a lost key, a wrongly found key or a panic. An entry of the table never makes an absent key appear present.",
  ["inputs", "histories"], "all histories over keys with arbitrary (colliding or not) hash values",
  "Real hash collisions in a table of millions of slots practically never occur in a test.",
  [H, D, L], [("hit verified by comparing the full key", D), ("entry cleared or overwritten on delete/relocation", D), ("key hash", L)], ["results of put/get/delete with keys of chosen hash"], "cfg(siamesedb_verif): public constructor of a map with a caller-supplied key type")

p("C07", "Key types order, compare, hash and convert consistently",
  "For every key type, comparing a key against the stored bytes of another key agrees with comparing the two keys; equal keys have equal stored bytes and equal hashes; converting a key to stored bytes and back gives the same key. Integer keys are ordered and stored as unsigned numbers, and round-trip over the whole 64-bit range; string and byte keys are ordered lexicographically by bytes and keys that differ in any byte or in length are different keys.",
  ["inputs"], "all pairs of keys of each key type (all 64-bit integers; byte strings and strings up to the stated length)",
  "Tests use small ASCII keys and small integers; order and equality must agree for every pair.",
  [KB, KI, KS, L], [("as_bytes/from_bytes/cmp_u8 of each key type", "src/filedb/dbmap/"), ("conversions From<..> of each key type", "src/filedb/dbmap/"), ("hash_value", L)], ["DbMapKeyType methods and From conversions", "iteration order"])

p("C08", "Bulk operations equal the same single operations in order",
  "A bulk put leaves the map exactly as putting its pairs one by one in the given order would, also when a key occurs several times; a bulk get or bulk delete returns, at each position, what the single operation on that key would return in the given order. The string variants do the same.",
  ["inputs", "histories"], "all bulk arguments (any order, any duplicates, any length within bounds) on any map",
  "Tests use bulk calls with distinct keys only, in one or two orders.",
  [L, M], [("sort then apply then restore positions", L)], ["DbXxx::bulk_* results and the resulting contents"])

p("C09", "Maps are isolated and handles of one map are one map",
  "Operations on one map never affect another map of the same database or another database, for any distinct plain names and any key types; two handles obtained for the same map name and type, and clones of a handle, always show the same contents. A database-wide sync covers every open map.",
  ["histories", "inputs"], "all interleavings of operations on several maps and several handles",
  "Tests use one map through one handle.",
  [FM, IM, DM], [("per-name map registry", IM), ("file names derived from map name", DM), ("shared inner state of handles", DM)], ["operations through several handles and maps"])

p("C10", "A map of another type or a foreign file is refused and left intact",
  "Opening an existing map under a different key type, or non-empty files whose signatures are not those of this store, never yields a usable map: opening fails, and the existing files keep their bytes so that the original map still opens with its contents. Opening an existing map under its own type never alters its contents.",
  ["inputs", "histories"], "all values of the signature and type fields in the headers, all pairs of key types",
  "No test opens a map under a wrong type or damages a header.",
  [K, V, I, H, DM], [("signature checks in each file header", "src/filedb/inner/{key,val,idx,htx}.rs")], ["result of opening, file bytes afterwards"])

p("C11", "The memory database gives the same answers as the file database",
  "For any history of put, get, delete and bulk operations with any keys, an in-memory map of a given key type returns the same results as a file-backed map of that key type. Two handles of the same in-memory map name show the same contents, and maps of different names or types are independent.",
  ["histories", "inputs"], "all histories over all keys of each key type",
  "Tests run a few fixed histories on the in-memory map with ASCII keys.",
  [M, L], [("in-memory map implementation", M)], ["results of the DbXxx operations on both stores"])

p("C12", "Keys and values of every size round-trip unchanged",
  "A value of any length from zero up, with any bytes, is returned unchanged after put, after overwriting a shorter or longer value, and after reopening; so is a key of any length, including the empty key. Growing or shrinking one value never disturbs another record.",
  ["inputs", "histories"], "all byte contents and all lengths within bounds that include every storage size class and the boundary on both sides, and all pairs of old and new length around those boundaries",
  "Tests use short text values; the off-by-one sizes are where record sizes round up to the next storage class.",
  [V, K, P, F], [("record size computation and rounding", P), ("record encode/decode", V), ("record encode/decode", K)], ["get after put/overwrite/reopen"])

p("C13", "Buffer settings and buffering calls never change behaviour",
  "Every choice of buffer sizes for the files of a map (fixed, proportional or automatic) yields the same results and the same stored contents for the same history, and data written under one choice reads back under any other. Calling read_fill_buffer, flush or sync at any point changes no answer.",
  ["configurations", "histories"], "all buffer-size choices per file within bounds, and all placements of read_fill_buffer/flush/sync in a history",
  "Tests use one or two buffer settings; eviction of buffered chunks happens only when files outgrow a small buffer.",
  [F, FM, I, K, V, H], [("buffer construction from parameters", F), ("chunked buffer with eviction", "rabuf")], ["results and contents under different FileDbParams"])

p("C14", "Storage failures are reported and acknowledged data is safe",
  "If writing, extending or synchronising a file fails at any point, the flush or sync call that depends on it does not report success: whenever flush or sync returns Ok, all changes made before it have reached the files. A failed flush or sync can be retried, and a retry that returns Ok makes the same guarantee. A failed write during an operation is reported by it and leaves every other key as it was.",
  ["fault_sequences", "histories"], "any single failing write, truncate or fsync call at any position during flush/sync, followed by a retry",
  "Tests never inject an I/O failure.",
  [D, F, V, K, I, H], [("dirty gate cleared only after success", D), ("errors propagated by the buffered file", F)], ["Result of flush/sync_* versus file bytes"])

p("C15", "A successful sync is durable against power loss",
  "After sync_all or sync_data (of the map or of the database) returns Ok, everything changed before the call has been pushed to stable storage by an fsync-family call on each file concerned: if power is lost right then, reopening shows exactly the contents at the moment of the sync. This holds also if the changes had already been flushed, or had been read back, before the sync.",
  ["crash_points", "histories"], "a crash immediately after any successful sync in any history with any placement of flush and earlier syncs",
  "A test process cannot lose the operating system's cache, so a missing fsync is invisible to it.",
  [D, F, IM], [("sync_all/sync_data forwarded to the four files", D), ("dirty gate", D)], ["fsync/fdatasync calls per file versus writes"])

p("C16", "Inspection reports count exactly what is stored",
  "For any history, the inspection reports of a map agree with its real contents: the numbers and sizes of used and free records and nodes, the statistics of key and value lengths, record sizes and keys per node, the tree depth and the number of occupied lookup slots are those of the actual files. Taking a report changes nothing.",
  ["histories", "inputs"], "all histories of put and delete, including the empty map",
  "Tests compare a few printed reports of fixed histories.",
  [D, I, K, V, H, P, FM], [("count_*/..._stats walks", D), ("free-list counting", P)], ["CheckFileDbMap results versus an independent walk of the files"])

p("C17", "Reading changes nothing",
  "Lookups of present or absent keys, membership tests, bulk gets, iteration, inspection reports and opening an existing map never modify any stored content: the bytes of the data files are the same before and after, apart from the lookup-table file that serves as a cache, and a sync afterwards leaves them so.",
  ["histories", "inputs"], "all maps, all read operations with any arguments",
  "Tests never compare file bytes around read operations.",
  [D, I, H], [("read path separate from write path", D)], ["file bytes before and after"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
