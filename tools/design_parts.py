HEAD = '''# Deciding properties of arcus-memcached by symbolic execution of its own code

(Generated by `tools/gen_design.py` from `tools/design_parts.py`, `checks/*.py`, `known_findings.json` and `seeded/`.)

## 1. Method

Every property is decided the same way. A C *harness* (`harness/`) sets up the part of the system it needs, draws inputs -
bytes, numbers, operation choices, clock values, allocation failures, scheduling decisions - as symbolic variables, calls
the real functions, and asserts that what they answer and leave behind equals what an abstract model (the *oracle*, a plain
array or list next to the calls) says. `symx` executes harness and code together:

* `/repo`'s current sources are compiled by clang-18 -O0 to LLVM bitcode on every run (no optimiser, asserts enabled, the
  defines the autotools build uses). Nothing is transcribed by hand; a change in the code is a change in the encoding.
* `symx/` is a symbolic executor for that bitcode written for this task, with Z3 4.8.12 as solver (C API). Values are
  bit-vector terms; memory is byte-accurate with one object per allocation. A branch whose condition depends on inputs is
  decided by Z3 and forked when both sides are feasible; each `sym_assert` and each failing `assert()` of the code is the
  query "is there a value on this path that violates it". Out-of-bounds and use-after-free accesses, double frees, writes
  to constants, reads of uninitialised bytes that reach a decision, and aborts are violations as well.
* `rt/` holds the environment models, executed symbolically too: C library, cooperative pthreads with a scheduler whose
  decisions are symbolic (`pth.c`), and - for the server - libevent, sockets, SASL and the process environment
  (`harness/server.h`, which runs the real `main()`).
* A counterexample is a full assignment of the inputs. The harness is also built natively (clang, AddressSanitizer and
  UBSan) and replayed with it; only a reproduced one is reported as `VIOLATION`, with the input file as replay path
  (`python3 run.py Cnn --replay FILE`). Counterexamples that do not reproduce are counted in evidence as
  `unconfirmed_counterexamples` and mean a defect of the machinery.
* On every run sampled symbolic paths are replayed natively too, and the digest of everything observed is compared
  (`traces_validated_against_impl`): a model of the C library or of the IR that differs from reality shows up there.
* Each job names markers that must be reached (`vacuity_missing` in evidence); a job whose oracle branches are never
  exercised fails to be evidence and is reported.
* A job that exhausts its paths is complete for its bounds (`exhaustive_within_bounds`); otherwise evidence says how many
  paths were dropped by the time budget. No path is sampled: within the bounds the verdict is over all values.

`VERIF_TIER=thorough` widens the bounds as listed below (longer histories, more preemptions, larger trees).

Why this reaches what the tests cannot: the tests run one value, one schedule, one failure point per case. Here every
flags value, bkey, delta, clock reading, cut position in the byte stream, failing allocation or preemption point within
the bounds is covered by one verdict, and histories of operations are all histories of that length over the listed menu.

### Reductions used, and what they leave out

* Small b+tree nodes: hook `VERIF_BTREE_ITEM_COUNT=4` (32 when undefined) makes trees of several levels cheap; jobs named
  `node32` run the unchanged size. Small key index: hook `VERIF_ASSOC_HASHPOWER` (17 when undefined).
* Hash functions of keys and elements are replaced by harness functions (`wrap_hash.h`): all hash values the engine could
  compute are covered by letting the harness choose them (colliding, agreeing in 28 bits, ...).
* C13, C16, C27 and the server jobs replace `slabs.c` by its contract (`slabs_stub.c`), which C15 checks of the real one.
* Memory is sequentially consistent; threads are switched at lock, condition and pipe operations and, in the jobs marked
  "basic block", at every basic block outside (or everywhere, thorough) locked regions.
* For queries that are conjunctions of comparisons between 64-bit variables, symx first tries a decision procedure for
  the theory of total orders; these verdicts are counted separately from Z3's, a first version of it was found unsound
  by `SYMX_CHKORD` (which repeats each one with Z3) and corrected.
'''

P = {}
P['C01'] = ('map of two keys with value bytes, flags, expiry', 'the result code of every operation and everything get reports are compared after every step with the map; a refused operation must leave every key as it was. `sizes` walks values over every slab class border, so copies across a class change (append/prepend) are byte-exact.')
P['C02'] = ('64-bit arithmetic and a reference parser of unsigned decimals', 'the stored bytes are symbolic, so what counts as a number is decided for every byte string of the length; bytes behind the value in the same memory are symbolic too, so reading beyond the value is seen.')
P['C03'] = ('ghost map plus the set of all CAS ids seen so far', 'the CAS argument of cas/delete is any 64-bit value; freshness is asserted against every earlier id of every key.')
P['C04'] = ('liveness predicate over (stored at, expiry, flush marks, now)', 'all clock readings between the steps and all expiry/flush delays are symbolic 16/32-bit values, so each boundary (equal, one before, one after, wrapped, negative) is a solver question rather than a sample.')
P['C05'] = ('array', 'every 32-bit index and range end; overflow actions and maxima enumerated.')
P['C06'] = ('bounded set; random choice replaced by a symbolic value, so every outcome of rand() is covered', 'element hashes are chosen by the harness: one chain, split and merged nodes, agreement in 28 bits.')
P['C07'] = ('bounded field/value map', 'as C06, with field lists (repetitions included).')
P['C08'] = ('sorted array keyed by (bkey)', 'bkeys, range ends, element flags, filter operands and flag bytes symbolic; trees of three levels in four insertion orders; node32 with unchanged nodes; the structural invariants of the tree are walked through the public interface (full forward and backward scans) after each change.')
P['C09'] = ('index in the sorted array', 'positions, counts 0-255 in both orders, including after changes.')
P['C10'] = ('sorted array with the documented overflow, trim and range rules', 'maximum bkey range arbitrary; trimmed marks and returned elements compared.')
P['C11'] = ('merge of sorted arrays with the documented missed/trimmed lists', 'both interfaces (old and new), 2-3 keys, repeated keys, missing, unreadable and trimmed ones.')
P['C12'] = ('attribute record per type', 'every attribute value symbolic, all-or-nothing checked by re-reading all attributes.')
P['C13'] = ('per-block ledger of the allocator contract stub and symbolic memory validity', 'references are held across deletes, replaces, trims, evictions, drops; at the end the ledger must be empty and sizes match.')
P['C14'] = ('sums over all blocks that exist, computed from the allocator ledger and the item census', 'compared with E->get_stats and prefix_dump_stats at the end of each history.')
P['C15'] = ('disjointness, size, alignment and limit of every live block; refill and merge after frees', 'the real slabs.c, histories of alloc/free with sizes around every class border; state between calls walked by patterns written in the blocks.')
P['C16'] = ('which keys may disappear', 'the allocator stub refuses at a symbolic point or above a symbolic limit; what disappeared must be unreferenced, non-sticky and needed.')
P['C17'] = ('key set', 'index of 2-16 buckets (hook), hash values chosen by the harness, growth during scans, cursor scans with every count, patterns by a reference matcher.')
P['C18'] = ('the observable state of the engine before the death (attributes, value bytes, CAS, every element)', 'record writers and replay are both the real code; one item of every shape is written, changed by every kind of change, and read back by a second engine from the log, from a snapshot, and from a snapshot with the log behind it. Lengths are enumerated at the alignment and length-field borders, contents are inputs.')
P['C19'] = ('the sequence of states the first engine went through', 'the point of death is an input: any byte of the log, or any file operation with any surviving part of unsynchronised data. What recovery yields must be exactly the state behind the last complete operation (or lie between the last acknowledged and the last started one). Then the recovered server works on, dies and is recovered again, so a badly cut tail is seen.')
P['C20'] = ('the sequence of states, and the synchronised length of the file at every answer', 'small buffers (hooks) make every wrap-around position and split over flush requests reachable in a few records; writer, flusher and checkpoint thread are scheduled symbolically.')
P['C21'] = ('reference parsers', 'every byte string up to the length bound.')
P['C22'] = ('reference splitter', 'every segmentation over memory blocks, every byte among delimiter/other/CR/LF.')
P['C23'] = ('script of expected reply forms, and an engine-level model for the key-value part', 'the whole server (main, connection state machine, parser, engine) runs over a modelled socket; cuts of the byte stream, failing mallocs and engine allocations, failing sends and disconnects are symbolic positions; every symbolic command line must be answered in step (a probe command follows).')
P['C24'] = ('per-opcode length rules and reply forms', 'as C23 with binary requests; header fields symbolic.')
P['C25'] = ('fresh ring over the same node set, and a linear search', 'any key hash; md5 replaced by a harness digest that places points adversarially (shared, at both ends).')
P['C26'] = ('counters per prefix / LRU list / association list', 'keys, hashes and histories symbolic.')
P['C27'] = ('the same requests run one after the other in every order by the same engine under other prefixes', 'the concurrent answers and the final state must equal those of one order. Locks: owner tracked, balance checked on all paths with failing allocations, deadlock = no runnable thread.')
P['C28'] = ('privilege classes per command, read off the documentation', 'histories of authentication x commands x any privilege mask; refused means: reply, no engine effect (engine digest unchanged).')
P['C29'] = ('multiset/order of handed over connections; wake-up counts; constructor/destructor ledger', 'threads scheduled symbolically at lock, condition and pipe operations.')
P['C30'] = ('reference parser of the configuration syntax; documented ranges', 'every text up to the length bound over bytes 1-127; long keys and values around buffer sizes.')

FALSE = '''
* C06/C07: hcnt overflow needs more than 32767 elements with one hash - outside the bounds, recorded as a limitation.
* C10: a first oracle for the maximum range over binary bkeys of mixed lengths misread the documented rule; such mixes are
  outside the bounds.
* C13/C27: `get_prefix_info` was called on key-scan results, cursors of keyscan are in/out, `stats_prefix_clear` relies on
  its caller's lock - the harness was corrected. Element reference counts are 16 bits wide: histories stay below.
* C14: flush accounting attributed bytes to the wrong moment; the oracle now touches every key (lookall) before summing.
* C15: the class of a freed block was rounded differently from the allocation's in the oracle.
* C16: references held for more than three hours are taken back by design; the clock stays below.
* C17: hash chains longer than count+100 are skipped by design of the scan; only memory safety is asserted there.
* C23: length of a key that is wiped in a reply, the length of the PIPE_ERROR line.
* C24: harness enum of bit operations, default overflow action of lists, the TRIMMED reply, vbucket opcodes answered by
  the engine.
* C25: ties between ring points of different nodes are ordered as in a fresh ring (any consistent order is accepted).
* C28: max_list_size can only grow; `bop incr` on a non-number; mismatching data lengths in the harness; after a failed
  re-authentication both the old privileges and none are accepted in the text protocol; data lines of a refused text
  command may be read as (unknown) commands.
* C08-C11 (machinery): the total-order procedure, see section 1.
'''

LIMITS = '''
* C18-C20: the file system is a model; torn sectors inside synchronised data, renames and directory entries lost in a crash
  are not modelled. Histories are 1-6 operations; values stay below 100 bytes; the log buffer is 300-16384 bytes (hooks).
* Bounds: as listed per job. Beyond them (longer histories, more than 3 threads, larger trees) nothing is claimed.
* Set/map: more than 32767 elements of equal hash (hcnt is 16 bits) and more than 64 in one chain.
* smget: a key named twice may go unnoticed when none of its elements is among the first offset+count; the environment
  variable that forces b+tree overflow is not modelled.
* C26: the counter fields of hot keys are written directly in `bignum`.
* C30: double backslashes, text after a size suffix, empty values, multi-character values for character options and signed
  numbers are left open by the documentation and not judged; floats are outside.
* C23: the free text of `help`, `lqdetect`, `cmdlog` and `cachedump` is only checked for framing. gat/gats are compiled out.
* C24: BOP_DELETE/GET/COUNT/MGET/SMGET cannot be reached in the binary protocol as built (extras length is 8 bits wide);
  collection requests to a vbucket that is not active answer EINTERNAL (not judged).
* C28: the text jobs compile memcached.c with -DASCII_SASL (opt-in); the binary jobs with the default build. stats, version,
  help, ready, sasl mech and quit are public in text. The ZooKeeper source of the user list (sasl_auxprop.c) is not encoded.
* C25: node names below 128 characters, all different.
* C29: libevent and pipes are models.
* Weak memory effects are outside everywhere.
'''
