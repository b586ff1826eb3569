import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from srv import job
from vlib import Check, Job, ENG
SRC = [s for s in ENG if not s.endswith('/slabs.c')]; M = ['-Dmalloc=h_malloc', '-Dcalloc=h_calloc', '-Drealloc=h_realloc']
ALLK = '-DH_KINDS={LIST,SET,MAP,BTREE}'; KVQ = '-DH_REQS={R_SET,R_ADD,R_APPEND,R_CAS,R_INCR,R_GET,R_DELETE}'
def J(name, defs, fine=True, **k): return Job(name, 'harness/conc.c', SRC, defs + (['-DH_FINE=%d' % fine]), extra=['harness/slabs_stub.c'], time=200, thorough_time=1800, fine=bool(fine), reach=['end', 'first order', 'last order'], **k)
def B(name, n, **k): return Job(name, 'harness/conc.c', SRC, ['-DH_BALANCE=%d' % n] + M, extra=['harness/slabs_stub.c'], time=200, thorough_time=1800, reach=['end', 'allocation failed'], **k)
check = Check('C27', [
  J('kv', ['-DH_KINDS={KV}', '-DH_PRE=1'], thorough_defs=['-DH_PRE=2'], bounds='every pair of 14 requests on a key-value item (missing, a number, other text), 1 (thorough 2) preemptions at locks and at every basic block outside locks'),
  J('kvlocks', ['-DH_KINDS={KV}', '-DH_PRE=2'], fine=0, thorough_defs=['-DH_PRE=3'], bounds='the same pairs, 2 (3) preemptions at lock operations'),
  J('kvheld', ['-DH_KINDS={KV}', '-DH_PRE=1'], fine=2, only='thorough', bounds='the same pairs, 1 preemption at any basic block'),
  J('coll', [ALLK, '-DH_PRE=1'], thorough_defs=['-DH_PRE=2'], bounds='every pair of 14 requests on a collection of each type (missing, 3 elements, nearly full), 1 (2) preemptions at locks and at every basic block outside locks'),
  J('colllocks', [ALLK, '-DH_PRE=2'], fine=0, thorough_defs=['-DH_PRE=3'], bounds='the same pairs, 2 (3) preemptions at lock operations'),
  J('btree', ['-DH_KINDS={BTREE}', '-DH_MENU=1', '-DH_PRE=1'], thorough_defs=['-DH_PRE=2'], bounds='every pair of 9 b+tree requests (incr, position with get, get by position, sort-merge get, upsert, ...)'),
  J('kv21', ['-DH_KINDS={KV}', '-DH_T1=2', '-DH_STATES=2', '-DH_PRE=2', KVQ], fine=0, bounds='two requests against one, 7 key-value requests, 2 preemptions at lock operations'),
  J('kv111', ['-DH_KINDS={KV}', '-DH_T3=1', '-DH_STATES=1', '-DH_PRE=2', KVQ], fine=0, thorough_defs=['-DH_STATES=3'], bounds='three threads with one request each, 2 preemptions at lock operations'),
  J('coll21', [ALLK, '-DH_T1=2', '-DH_STATES=2', '-DH_PRE=2', '-DH_REQS={R_PUT,R_TAKE,R_ALL,R_UPD,R_DELETE,R_REMALL}'], fine=0, bounds='two requests against one, 6 collection requests, 2 preemptions at lock operations, with the background deleter'),
  J('scrub', ['-DH_KINDS={LIST,BTREE}', '-DH_STALE', '-DVERIF_ASSOC_HASHPOWER=4', '-DH_T1=2', '-DH_STATES=1', '-DH_PRE=2', '-DH_REQS={R_SCRUB,R_PUT,R_DELETE}'], fine=0, thorough_defs=['-DH_STATES=2', '-DH_REQS={R_SCRUB,R_PUT,R_DELETE,R_SET}'], bounds='requests while the scrubber walks over live and expired items'),
  B('balance', 1, bounds='every engine entry on every kind of item, one of its first 3 item allocations or first 3 mallocs failing'),
  B('balance2', 2, only='thorough', bounds='pairs of entries'),
  Job('prefixes', 'harness/opconc.c', ['stats_prefix.c', 'util.c'], ['-DH_MODE=0', '-DH_PRE=1'], fine=True, time=120, reach=['end'], thorough_defs=['-DH_PRE=2', '-DH_R2=2'], thorough_time=1800, bounds='two of 9 uses of the per-prefix statistics against one (two), 1 (2) preemptions'),
  Job('hotkeys', 'harness/opconc.c', ['topkeys.c', 'genhash.c'], ['-DH_MODE=1', '-DH_PRE=1'], fine=True, time=120, reach=['end'], thorough_defs=['-DH_PRE=2', '-DH_R2=2'], thorough_time=1800, bounds='two of 7 uses of a hot-key tracker of 1 or 2 keys against one (two), 1 (2) preemptions'),
  job('server', 'harness/text.c', ['-DH_MODE=3', '-DMODE=3', '-DNF=12', '-DNFS=8', '-DSRV_SHOW'], thorough_defs=['-DNF=120', '-DNFS=60'], time=200, thorough_time=1800, reach=['end'], bounds='27 scripts of every documented command through the whole server, the n-th malloc (n < 12) or item allocation (n < 8) fails: no lock is kept, none is taken twice'),
], 'requests of 2-3 threads on one key and its prefix through the real engine with its background threads; the answers and the state afterwards are compared with every order of the same requests run one after the other by the same engine under another prefix; lock balance over every engine entry with allocations failing.',
 assumptions=['sequentially consistent memory; a thread is preempted at lock and condition operations and, while it holds no lock, at every basic block of the engine', 'the slab allocator keeps its contract (C15)'])
