from vlib import Check, Job, ENG, VERIF
H = 'harness/refs.c'; SRC = [s for s in ENG if not s.endswith('/slabs.c')]
W = ['-include', VERIF + '/harness/wrap_hash.h', '-DH_WRAPSELF']
EOPS = 'P_PUT|P_REM|P_HOLDEL|P_REL|P_DEL'
def J(name, defs, **k): return Job(name, H, SRC, defs, extra=['harness/slabs_stub.c'], time=100, **k)
check = Check('C13', [
  J('kv', ['-DH_KEYS={"a:x","b"}', '-DH_N=4', '-DH_VL={3,20}', '-DH_KIND={KV}', '-DH_OPS=(P_SET|P_APP|P_ARITH|P_DEL|P_HOLD|P_REL)'], thorough_defs=['-DH_N=5'], reach=['end', 'held', 'released'], bounds='4 (thorough 5) key-value operations on two keys with references held across them'),
  J('kvpend', ['-DH_N=4', '-DH_VL={3,4500}', '-DH_KIND={KV}', '-DH_EXPIRE', '-DH_OPS=(P_SET|P_ALLOC|P_DEL|P_HOLD|P_REL|P_FLUSH|P_EXPIRE)'], thorough_defs=['-DH_N=5'], reach=['end', 'held', 'pending stored', 'released'], bounds='4 (thorough 5) operations with items allocated first and stored later, flush and expiry, small and large items'),
  J('scan', ['-DH_KEYS={"a:x","b"}', '-DH_N=4', '-DH_VL={3}', '-DH_KIND={KV,LIST}', '-DH_NEL=1', '-DH_OPS=(P_SET|P_PUT|P_DEL|P_SCAN|P_REL)'], reach=['end', 'scanned', 'released'], bounds='4 operations with references taken by a key scan'),
  J('list', ['-DH_N=3', '-DH_PRE=2', '-DH_MAXC=3', '-DH_KIND={LIST}', '-DH_OPS=(%s|P_PENDEL|P_FLUSH)' % EOPS], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'elements held', 'elements held and removed', 'pending linked', 'released'], bounds='3 (thorough 4) list operations with elements held'),
  J('set', ['-DH_N=3', '-DH_PRE=2', '-DH_KIND={SET}', '-DH_OPS=(%s|P_PENDEL|P_BG)' % EOPS], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'elements held', 'elements held and removed', 'pending linked', 'released'], bounds='3 (thorough 4) set operations with elements held'),
  J('map', ['-DH_N=3', '-DH_PRE=2', '-DH_KIND={MAP}', '-DH_NEL=2', '-DH_OPS=(%s|P_UPD|P_PENDEL)' % EOPS], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'updated', 'elements held', 'elements held and removed', 'pending linked', 'released'], bounds='3 (thorough 4) map operations with elements held'),
  J('btree', ['-DH_N=3', '-DH_PRE=2', '-DH_KIND={BTREE}', '-DH_NEL=2', '-DH_OPS=(%s|P_UPD|P_PENDEL)' % EOPS], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'updated', 'elements held', 'elements held and removed', 'pending linked', 'released'], bounds='3 (thorough 4) b+tree operations with elements held'),
  J('btget', ['-DH_KEYS={"a:x","b"}', '-DH_N=3', '-DH_PRE=2', '-DH_MAXC=3', '-DH_KIND={BTREE}', '-DH_NEL=3', '-DH_VL={3}', '-DH_OPS=(P_PUT|P_REM|P_DEL|P_UPD|P_MISC|P_REL)'], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'updated', 'pwg', 'gbp', 'smget', 'bop incr', 'released'], bounds='3 (thorough 4) operations with elements held by position queries and sort-merge get'),
  J('nodes', ['-DH_N=2', '-DH_PRE=24', '-DVERIF_BTREE_ITEM_COUNT=4', '-DH_WRAP=0x1111', '-DH_KIND={SET,MAP,BTREE}', '-DH_NEL=25', '-DH_VL={3}', '-DH_OPS=(%s)' % EOPS] + W, reach=['end', 'put', 'removed', 'elements held', 'elements held and removed', 'released'], bounds='2 operations on collections of 24 elements in several nodes'),
  J('oomkv', ['-DH_N=3', '-DH_FAIL=2', '-DH_KIND={KV}', '-DH_OPS=(P_SET|P_APP|P_ARITH|P_DEL|P_HOLD|P_ALLOC|P_REL)'], reach=['end', 'allocation failed'], bounds='the last of 3 key-value operations runs out of memory at any of its allocations'),
  J('oomel', ['-DH_N=2', '-DH_FAIL=4', '-DH_PRE=2', '-DH_KIND={LIST,SET,MAP,BTREE}', '-DH_MAXC=2', '-DH_OPS=(%s|P_UPD|P_PENDEL|P_CREATE)' % EOPS], reach=['end', 'allocation failed'], bounds='the last of 2 collection operations runs out of memory at any of its allocations'),
  J('oomnew', ['-DH_N=2', '-DH_FAIL=4', '-DH_KIND={LIST,SET,MAP,BTREE}', '-DH_OPS=(%s|P_UPD|P_PENDEL|P_CREATE)' % EOPS], reach=['end', 'allocation failed'], bounds='the same on a key that does not exist'),
  J('oomnode', ['-DH_N=1', '-DH_FAIL=8', '-DH_PRE=16', '-DVERIF_BTREE_ITEM_COUNT=4', '-DH_KIND={SET,MAP,BTREE}', '-DH_NEL=17', '-DH_VL={3,20}', '-DH_WRAP=0x1111', '-DH_OPS=(%s|P_UPD)' % EOPS] + W, reach=['end', 'allocation failed'], bounds='one operation on a collection of 16 elements runs out of memory at any of its allocations (node splits)'),
], 'Every memory access of the engine is to allocated memory, each block is freed exactly once with the size and class it was allocated with, what a holder of an item or element reference sees does not change until it gives the reference back, and nothing stays allocated when nothing is stored or held.', assumptions=['the slab allocator keeps its contract (C15): it is replaced by one in which each block is a separate object', 'at most 65534 references to one element at a time'])
