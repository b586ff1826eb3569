#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})
E = "engines/default/"

prop("C01", "Key-value storage commands behave like an atomic map",
 """For every sequence of set, add, replace, append, prepend, cas, delete and get requests, the result code of each request and the
 value, flags and expiry returned by every later get are exactly those of a map in which add stores only an absent key, replace, append and
 prepend only touch a present key, and delete removes it. A refused or failed request leaves the stored item unchanged, and a
 key-value request against a collection key is refused as a type error wherever it would have to interpret or extend the value.
 append and prepend produce exactly the old bytes joined with the new bytes, ending in one terminating CRLF, and keep the old flags and expiry.""",
 ["histories", "inputs"], "all short request histories over colliding keys, any flags, any value bytes, starting from empty, key-value or collection keys",
 "t/getset.t, cas.t and the like issue a few fixed scripts; they cannot try every operation after every state with every flag/value",
 [E+"items.c", E+"item_base.c", E+"default_engine.c"],
 [("do_item_store_*", E+"items.c"), ("do_item_link/replace/unlink", E+"item_base.c")], ["engine API allocate/store/get/remove"],
 [("hash_item", "one stored key", E+"item_base.h")])

prop("C02", "incr and decr are exact 64-bit counter updates",
 """Increment adds modulo 2^64 and decrement subtracts but never goes below zero; the number returned is exactly the number a following get
 returns as decimal digits, and the item keeps its flags and expiry. A value that is not an unsigned decimal number is refused and left untouched, and
 on a missing key the request either reports the miss or, when asked to create, stores exactly the given initial value, flags and expiry.""",
 ["inputs", "histories"], "all 64-bit stored numbers with up to 20 digits, all deltas and initial values, all non-numeric short values",
 "t/incrdecr.t and 64bit.t check about a dozen constants out of 2^128 operand pairs",
 [E+"items.c", "memcached.c", "util.c"], [("do_add_delta", E+"items.c"), ("safe_strtoull", "util.c")], ["engine API arithmetic/get"])

prop("C03", "CAS ids are fresh on every modification and gate cas stores",
 """Every successful modification that stores an item (set, add, replace, append, prepend, cas, incr, decr) gives the key a CAS id that no
 earlier version of any key ever had, reads and refused requests leave the id unchanged, and the id reported by the modification is
 the one a following read reports. A cas store, or a delete that carries a CAS id, takes effect exactly when its id equals the current one;
 otherwise it is refused and changes nothing.""",
 ["histories", "inputs"], "all request histories up to the bound and all 64-bit cas values presented by clients",
 "tests compare a few ids; uniqueness over histories and all mismatching ids is universally quantified",
 [E+"items.c", E+"item_base.c"], [("get_cas_id / item_set_cas", E+"item_base.c"), ("do_item_store_cas", E+"items.c")], ["engine API store/get/remove/arithmetic"])

prop("C04", "Expired or flushed items are never served, live ones always are",
 """At every instant an item is returned by get, counted as existing by add or touched by any collection command if and only if its expiry time has not been
 reached and no flush_all or prefix flush whose effective time has been reached was issued after the item was last stored; items with
 the sticky expiry never expire, and expiry 0 means never. Storing or changing the expiry later makes the newer value decisive,
 and a prefix flush hides exactly the items whose key carries that prefix (the part before its first delimiter), never others. A flush that has become effective stays effective: a later, delayed flush never makes a hidden item visible again, while a flush still pending is replaced by the next one of the same scope.""",
 ["inputs", "histories"], "all current times, expiry times and flush delays (32-bit), all orders of store / flush / setattr / get",
 "tests sleep for a few seconds; they cannot try every relation of the clock to expiry and flush times",
 [E+"item_base.c", E+"items.c", E+"prefix.c", "memcached.c"],
 [("do_item_isvalid", E+"item_base.c"), ("do_item_flush_expired", E+"items.c"), ("prefix_isvalid", E+"prefix.c"), ("realtime", "memcached.c")],
 ["engine API get/store/flush/setattr with a stubbed clock"], [("oldest_live", "flush time of all items or of one prefix", E+"default_engine.h")])

prop("C05", "List collections behave like bounded sequences",
 """Inserting at any positive or negative index, and getting or deleting any index range, act exactly as on a sequence: the right elements, in
 the right order, and an out-of-range error precisely when the documented index rules say so. When the list is full, the configured overflow action decides: the
 insert is refused under 'error', otherwise exactly one element at the proper end is trimmed; the element count never exceeds the maximum.
 Deleting the last element with the drop option removes the key, otherwise an empty list remains.""",
 ["inputs", "histories"], "all 32-bit indexes and ranges, all list lengths up to the bound, all overflow actions and maximum counts",
 "coll_lop_unittest.t probes fixed indexes only",
 [E+"coll_list.c"], [("do_list_elem_insert/get/delete", E+"coll_list.c"), ("adjust_list_range", E+"coll_list.c")], ["engine API list_*"])

prop("C06", "Set collections behave like bounded sets of unique values",
 """A value is a member exactly from a successful insert until its deletion: duplicates are refused, the member count is exact and
 never exceeds the maximum, and existence tests and deletes see exactly the members, whatever the hash values of the elements.
 A (random) get of n elements returns min(n, size) distinct members, all of them when n is zero, and deletes exactly the returned members when asked to; an emptied set is dropped exactly on request.""",
 ["inputs", "histories"], "all element values (including colliding hashes and hash-tree node splits/merges), all counts and all random choices up to the bound",
 "coll_sop_unittest.t uses random samples; hash collisions deep enough to split and merge hash nodes and every random pick are not forced",
 [E+"coll_set.c"], [("do_set_elem_link/unlink/find", E+"coll_set.c"), ("do_set_elem_get", E+"coll_set.c")], ["engine API set_*"])

prop("C07", "Map collections behave like bounded field-to-value maps",
 """Insert stores a field once (duplicates are refused unless upsert replaces the value), update changes exactly the named existing field, and
 get/delete of a field list affect exactly the requested existing fields (all fields when none is named).
 The field count is exact and never exceeds the maximum, whatever the hash values of the fields; an emptied map is dropped exactly on request.""",
 ["inputs", "histories"], "all fields and values up to the bound, including colliding hashes and hash-tree node splits/merges",
 "coll_mop_*.t use fixed field names and do not force hash collisions",
 [E+"coll_map.c"], [("do_map_elem_link/unlink/find/replace", E+"coll_map.c")], ["engine API map_*"])

prop("C08", "B+tree element access equals a sorted map keyed by bkey",
 """For 8-byte unsigned and for 1..31-byte binary bkeys, every insert, upsert, update, get, count and delete over a single bkey or an ascending
 or descending bkey range, with any offset, count and element-flag filter, returns and changes exactly the elements (bkey, element flag, value) that the
 same request on a sorted map would, in bkey order of the request. Duplicate bkeys are refused (or replaced by upsert), bkeys of the other type are refused, and binary bkeys order
 byte-wise with a proper prefix first. An emptied b+tree is dropped exactly on request.""",
 ["inputs", "histories"], "all bkeys, ranges, filters, offsets and counts on trees up to the bound, including multi-level trees with node split and merge",
 "coll_bop_*.t sample a few bkeys; node-boundary cases of range scans need specific tree shapes",
 [E+"coll_btree.c"], [("do_btree_find_first/next/prev", E+"coll_btree.c"), ("do_btree_elem_link/delete/get/count", E+"coll_btree.c"), ("BINARY_COMP", E+"coll_btree.c")], ["engine API btree_*"],
 [("btree_indx_node", "tree node with per-child element counts", E+"item_base.h")])

prop("C09", "B+tree position queries agree with the element order",
 """For every tree and either order, the position reported for a bkey is the number of elements that precede it in that order,
 getting by a position range returns exactly the elements at those positions in that order, and find-position-with-get returns the same position plus the
 neighbours within the requested distance, clipped at the ends, with the index of the found element among them.""",
 ["inputs", "histories"], "all tree contents up to the bound (including multi-level trees after inserts, deletes and trims), all positions and bkeys",
 "coll_bop_position tests use one regular tree; a wrong per-child count shows only for particular shapes",
 [E+"coll_btree.c"], [("do_btree_posi_find / do_btree_elem_get_by_posi", E+"coll_btree.c"), ("ecnt maintenance", E+"coll_btree.c")], ["engine API btree_posi_*"])

prop("C10", "B+tree overflow, trim and max-bkey-range rules are exact",
 """A full b+tree, or one whose bkey span would exceed its maximum bkey range, handles an insert exactly as its overflow action says: refuse on 'error',
 otherwise trim just enough elements at the named end, or refuse an element that would itself be trimmed; the element count and the bkey span never exceed their limits.
 The 'trimmed' mark is set exactly by non-silent trimming, later queries reaching into the trimmed area report it, and trimmed elements are handed back when requested.""",
 ["inputs", "histories"], "all bkeys, ranges (64-bit and binary), overflow actions, limits, on trees up to the bound",
 "coll_bop_maxbkeyrange.t and trimmed tests use fixed sequences",
 [E+"coll_btree.c"], [("do_btree_overflow_check / do_btree_overflow_trim", E+"coll_btree.c"), ("BINARY_DIFF / UINT64_DIFF", E+"coll_btree.c"), ("do_btree_overlapped_with_trimmed_space", E+"coll_btree.c")], ["engine API btree_elem_insert/get/getattr"])

prop("C11", "Sort-merge get merges many b+trees exactly",
 """smget over any list of keys returns the first `count` elements (after `offset`) of the bkey-ordered merge of the matching elements of all readable
 b+trees among the keys, ascending or descending, with ties in key order and, in unique mode, one element per bkey. Every key that is missing, unreadable or
 whose trimmed area reaches the range start is reported as missed with its reason, keys whose elements end at a trimmed area within the result are reported as trimmed, and duplicates are flagged.""",
 ["inputs", "histories"], "all contents of up to the bounded number of trees, all ranges, offsets, counts, orders and modes",
 "coll_bop_smget_*.t use fixed fixtures",
 [E+"coll_btree.c"], [("do_btree_smget_scan_sort / elem_sort", E+"coll_btree.c")], ["engine API btree_elem_smget, btree_elem_smget_old"])

prop("C12", "Item attributes are reported and changed exactly",
 """getattr returns the item's real type, flags, expiry, element count, maximum count, overflow action, readability, bkey range limit, extreme bkeys and trimmed state.
 setattr changes exactly the requested attributes, all of them or none, and refuses values that are illegal for the item's type or current contents
 (for example a maximum count below the current count); unset or zero limits take the documented defaults and over-large ones are clipped to the configured maximum.""",
 ["inputs", "histories"], "all attribute combinations and values on items of every type",
 "coll_readable_attr.t and getattr tests set one attribute at a time with fixed values",
 [E+"items.c", E+"coll_list.c", E+"coll_set.c", E+"coll_map.c", E+"coll_btree.c"], [("item_getattr / item_setattr", E+"items.c"), ("*_coll_setattr / *_coll_getattr", E+"coll_*.c")], ["engine API getattr/setattr"])

prop("C13", "Held items and elements stay intact; memory is freed exactly once",
 """An item or element handed to a reader keeps its contents and memory until the reader releases it, even if it is meanwhile deleted, replaced, trimmed, evicted, expired or its
 collection dropped. After all references are released, every block of a deleted item, element and internal node has been returned to the allocator exactly once with
 the size it was allocated with, no block is used after being returned, and nothing leaks.""",
 ["histories", "schedules", "inputs"], "all histories of create/modify/delete interleaved with readers holding references, all allocation failures up to the bound",
 "leaks and use-after-free in cached slab memory are invisible to tests (slab memory never returns to libc), and interleavings with a holding reader are not forced",
 [E+"item_base.c", E+"coll_list.c", E+"coll_set.c", E+"coll_map.c", E+"coll_btree.c"], [("refcounts", E+"item_base.c"), ("do_item_mem_alloc/free", E+"item_base.c"), ("collection_delete_thread", E+"item_base.c")], ["engine API with an allocator that tracks every block"])

prop("C14", "Item and byte statistics equal what is stored",
 """After any history, the engine's current item count and byte count equal the number of stored items and the sum of the memory blocks they occupy (including collection elements and nodes),
 the sticky counters equal the same sums over sticky items, and each prefix reports exactly its own item counts by type and bytes; all return to zero when everything is deleted.""",
 ["histories", "inputs"], "all bounded histories over item types, sizes, prefixes and sticky/normal expiry",
 "prefix and stats tests check a handful of totals after fixed scripts; drift shows only after specific replace/delete mixes",
 [E+"item_base.c", E+"prefix.c", E+"slabs.c"], [("do_item_stat_*", E+"item_base.c"), ("prefix_link/unlink/bytes_incr/decr", E+"prefix.c")], ["engine API get_stats, prefix_dump_stats"])

prop("C15", "The memory allocator hands out disjoint, sufficient, in-limit blocks",
 """Every block handed out is at least as large as requested, aligned, inside memory owned by the allocator and disjoint from every other live block and from the allocator's own metadata, for small blocks and slab blocks alike.
 Freed memory becomes allocatable again (adjacent free space is merged), the memory taken from the system never exceeds the configured limit plus the
 documented reserve, and a request that cannot be met fails cleanly without disturbing live blocks.""",
 ["histories", "inputs", "configurations"], "all alloc/free histories up to the bound with all request sizes",
 "no unit test addresses the allocator; overlaps appear only for particular size/free orders",
 [E+"slabs.c"], [("do_smmgr_alloc/free", E+"slabs.c"), ("do_slabs_alloc/free", E+"slabs.c")], ["slabs_alloc/slabs_free"],
 [("sm_slot/sm_blck", "small-memory free and used slots", E+"slabs.c")])

prop("C16", "Eviction spares referenced and sticky items and only runs under pressure",
 """When memory runs short and eviction is enabled, only unreferenced, non-sticky items are evicted, invalid (expired or flushed) items are reclaimed in preference where found, and evicted keys simply
 become misses; when eviction is disabled, requests fail with out-of-memory and nothing is evicted. The recency order holds every live item exactly once, and sticky items beyond the sticky limit are refused.""",
 ["histories", "inputs", "fault_sequences"], "all bounded histories of stores, reads held, touches and allocation failures",
 "evictions.t and lru.t follow one script; list corruption depends on rare cursor positions",
 [E+"item_base.c"], [("do_item_mem_alloc", E+"item_base.c"), ("item_link_q/item_unlink_q", E+"item_base.c"), ("do_item_regain", E+"item_base.c")], ["engine API under a failing allocator"])

prop("C17", "The key index and scans never lose, duplicate or invent keys",
 """Every stored key is found by exact lookup and no other key is, across any number of index growth steps and whatever the hash values. A complete cursor scan
 (keyscan / prefixscan) returns every key that existed during the whole scan, only existing keys of the requested type, prefix and pattern, and terminates; a snapshot-style
 iteration returns each persisting key exactly once even when keys are added or removed between its steps.""",
 ["histories", "inputs", "schedules"], "all hash values of keys, all scan counts and cursor positions, all insert/delete between scan steps up to the bound",
 "keyscan.t scans static data sets; growth in mid-scan and collisions are not forced",
 [E+"assoc.c", E+"items.c", E+"prefix.c"], [("assoc_find/insert/delete/expand", E+"assoc.c"), ("assoc_scan_next / assoc_scan_direct", E+"assoc.c"), ("prefix_scan_direct", E+"prefix.c")], ["engine API keyscan/prefixscan/get"])

prop("C18", "Persistence log records decode to the change they encode",
 """With persistence enabled, every change of the cache (item link/unlink, attribute change, flush, element insert/delete of each collection type, logical range deletes, snapshot elements) is written as
 a log record from which replay reproduces exactly that change: same key, flags, expiry, attributes, element bytes and CAS. Record lengths are exact and 8-byte aligned, and encoding never writes outside the reserved space.""",
 ["inputs", "histories"], "all keys, values, bkeys, eflags and attributes up to the bounded lengths",
 "the persistence build option is off in the tested build; no test covers it",
 [E+"cmdlogrec.c", E+"cmdlogmgr.c", E+"item_clog.c"], [("lrec_*_write / lrec_*_redo", E+"cmdlogrec.c")], ["record buffer; engine contents after replay"])

prop("C19", "Crash recovery restores a consistent prefix of the logged history",
 """For every crash point while log records are being written, recovery applies exactly the records that were completely written, in order, ignores a torn tail, and cuts the file so that later
 logging continues correctly; multi-record operations whose end mark is missing are handled as a unit as documented. A snapshot without its completion mark is never used.""",
 ["crash_points", "histories"], "every byte length at which the log or snapshot file may end, every record mix up to the bound",
 "the persistence build option is off in the tested build and no test crashes the server",
 [E+"cmdlogfile.c", E+"chkpt_snapshot.c", E+"checkpoint.c"], [("cmdlog_file_apply", E+"cmdlogfile.c"), ("chkpt_snapshot_file_apply / check_file_validity", E+"chkpt_snapshot.c")], ["log file bytes; engine contents after recovery"])

prop("C20", "The log buffer delivers records to the file in order, once, intact",
 """For every mix of record sizes, buffer wrap-around positions and flush timings, the bytes reaching the log file are the concatenation of all written records in write order, none lost, duplicated or torn,
 and log sequence numbers reported as flushed never run ahead of what was written to the file. During a checkpoint every record goes to both the old and the new file as required.""",
 ["schedules", "histories", "inputs"], "all record lengths and interleavings of writer and flusher steps up to the bound",
 "the persistence build option is off in the tested build",
 [E+"cmdlogbuf.c", E+"cmdlogfile.c"], [("do_log_buff_write/flush", E+"cmdlogbuf.c"), ("cmdlog_file_write", E+"cmdlogfile.c")], ["bytes passed to the file layer"])

prop("C21", "Numbers, hex strings, names and patterns parse exactly or are refused",
 """A decimal string is accepted by the signed/unsigned 32/64-bit parsers exactly when it denotes a value of that type (optionally surrounded as documented), and yields that value; overflow, sign
 abuse and trailing garbage are refused. Hex bkey/eflag text converts to exactly its bytes and back, only legal prefix names are accepted, and wildcard patterns (*, ?, backslash escapes) match exactly the strings they denote.""",
 ["inputs"], "all strings up to the bound (20+ digits for numbers)",
 "testapp.c checks some dozens of literals",
 ["util.c", "include/memcached/util.h"], [("safe_strto*", "util.c"), ("safe_strtohexa/safe_hexatostr", "util.c"), ("mc_isvalidname", "util.c"), ("string_pattern_match", "util.c")], ["util functions"])

prop("C22", "Command and key tokenizing is exact and memory-safe",
 """Splitting a command line or a key list (contiguous or spread over fixed-size memory blocks) yields exactly the delimiter-separated tokens of the text with right lengths and positions for every block size and segmentation; malformed lists (wrong count,
 empty or over-long tokens, missing terminator) are refused. Nothing outside the input and the supplied buffers is read or written, and all temporary blocks are given back.""",
 ["inputs", "configurations"], "all byte strings up to the bound, all token counts, block sizes and key boundaries",
 "tests send well-formed key lists whose boundaries rarely straddle blocks",
 ["mc_util.c"], [("tokenize_command", "mc_util.c"), ("tokenize_keys / tokenize_sblocks", "mc_util.c"), ("mblck_list_*", "mc_util.c")], ["mc_util API"])

prop("C23", "Text protocol requests get one right reply and never corrupt the server",
 """For every byte sequence of a text command line (any token count, lengths, numbers, noreply/pipe options) the server neither crashes nor touches memory out of bounds, answers each request with exactly one
 reply of the documented form (none under noreply), and stays in step: data blocks are consumed exactly as announced, also for refused requests, so that the next command is parsed from the right place. The reply reflects what the storage engine did.""",
 ["inputs", "histories"], "all command lines up to the bound on each command family, with any segmentation of the arriving bytes",
 "t/*.t sends well-formed lines and a few malformed ones",
 ["memcached.c"], [("process_command_ascii", "memcached.c"), ("process_update_command / complete_nread_ascii", "memcached.c"), ("conn_swallow / conn_nread", "memcached.c")], ["bytes read from and written to the client socket"])

prop("C24", "Binary protocol requests are length-checked and answered in step",
 """For every binary request header and body, inconsistent key/extras/body lengths are refused without reading outside the received packet, a well-formed request has the same effect as its text counterpart, and each
 non-quiet request is answered by exactly one response carrying its opcode and opaque, with correct lengths; quiet requests answer only as documented.""",
 ["inputs", "histories"], "all header field values and body bytes up to the bound",
 "testapp.c/binary.t send well-formed packets and few invalid ones",
 ["memcached.c", "include/memcached/protocol_binary.h"], [("dispatch_bin_command", "memcached.c"), ("write_bin_packet", "memcached.c")], ["bytes read from and written to the client socket"])

prop("C25", "The cluster hash ring assigns every key to exactly one node, consistently",
 """For every set of node names and every key, the ring assigns the key to one node of the set: the owner of the first ring point at or after the key's hash, wrapping around. The assignment does not depend on the order in which nodes are listed, and after any
 reconfiguration equals that of a freshly built ring, so all servers and clients agree and only keys of added or removed nodes move.""",
 ["inputs", "histories", "configurations"], "all 32-bit key hashes, all node lists and reconfiguration sequences up to the bound",
 "clustering needs ZooKeeper and is not linked into the tested build",
 ["cluster_config.c"], [("do_continuum_find", "cluster_config.c"), ("do_hashring_replace / gen_node_continuum", "cluster_config.c"), ("cluster_config_reconfigure", "cluster_config.c")], ["cluster_config API"])

prop("C26", "Prefix operation statistics and hot-key tracking count exactly",
 """Per-prefix operation counters equal the numbers of recorded operations and hits for keys under that prefix (nested prefixes included as documented), whatever the hash values, and the dump lists each prefix once with those numbers.
 The hot-key tracker keeps at most its configured number of keys, always the most recently used ones, with exact counters and times, reported whole; the hash map underneath never loses or mixes entries.""",
 ["histories", "inputs"], "all operation histories over colliding keys and prefixes up to the bound",
 "stats_prefixes.t and topkeys.t check one script",
 ["stats_prefix.c", "topkeys.c", "genhash.c"], [("stats_prefix_find/record/dump", "stats_prefix.c"), ("topkeys_item_get_or_create", "topkeys.c"), ("genhash_*", "genhash.c")], ["stats_prefix / topkeys / genhash API"])

prop("C27", "Concurrent engine requests are atomic and lock-disciplined",
 """For every interleaving of engine requests from several threads at lock-operation granularity, each request takes effect atomically: the results equal those of some sequential order. Every lock acquired is released
 on every return path (including all error paths), never acquired twice by one thread nor released by another, and no request can deadlock.""",
 ["schedules", "inputs", "histories"], "all interleavings at lock operations of bounded thread programs; all paths of every engine entry point for lock balance",
 "tests are single-client scripts; schedules are not controlled",
 [E+"items.c", E+"coll_list.c", E+"coll_set.c", E+"coll_map.c", E+"coll_btree.c", E+"item_base.c"], [("LOCK_CACHE / UNLOCK_CACHE", E+"*.c")], ["engine API called from several threads"])

prop("C28", "Only sufficiently authorized clients can run protected commands",
 """With authentication required, no data or admin command takes effect before successful authentication, and afterwards a command takes effect only if the user's privileges include the class it needs; everything else is refused without side effects, in text and binary protocol alike.
 The privilege list of a user is interpreted exactly: unknown words grant nothing.""",
 ["inputs", "histories"], "all authentication states and privilege masks, all command families",
 "binary-sasl.t exercises one user and few commands",
 ["memcached.c", "sasl_defs.c"], [("check_ascii_auth / authenticated", "memcached.c"), ("arcus_sasl_authz", "sasl_defs.c")], ["reply and engine state per command"])

prop("C29", "Worker hand-off queues and object caches neither lose nor duplicate",
 """Every connection handed to a worker thread is taken exactly once and in order; an I/O completion for a waiting connection wakes it exactly once, whether it arrives before or after the wait begins. The object
 cache hands out each free object to one user at a time, runs constructors and destructors in pairs, and destroys exactly what it created. Server-wide operation counters are the exact sums of the worker threads' counters.""",
 ["schedules", "histories"], "all interleavings of producers/consumers at lock granularity and all alloc/free histories up to the bound",
 "testapp.c tests the cache single-threaded with a few sequences; queue races are not forced",
 ["thread.c", "cache.c"], [("cq_push/cq_pop", "thread.c"), ("notify_io_complete / should_io_blocked", "thread.c"), ("cache_alloc/cache_free", "cache.c")], ["queue and cache API"])

prop("C30", "Engine and server configuration text is applied exactly or refused",
 """Configuration strings set exactly the named options to the denoted values (size suffixes, booleans, escapes, quoting), report unknown keys and malformed values, and never overrun buffers; limits outside the documented range are refused at start and at run-time reconfiguration, leaving the previous value in force.""",
 ["inputs", "configurations"], "all configuration strings up to the bound; all values for each run-time setting",
 "tests start the server with default or a few options",
 ["config_parser.c", E+"default_engine.c"], [("parse_config", "config_parser.c"), ("check_configuration / default_set_config", E+"default_engine.c")], ["parse_config; engine set_config/get_config"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
