from vlib import Check, Job, ENG, VERIF
H = 'harness/stats.c'; W = ['-include', VERIF + '/harness/wrap_hash.h', '-DH_WRAPSELF']
OPS = '-DH_OPS=(P_PUT|P_REM|P_REMALL|P_GETDEL|P_DEL|P_BUP)'
check = Check('C14', [
  Job('kv', H, ENG, ['-DH_KEYS={"a:x","a:y","b"}', '-DH_N=3', '-DH_KIND={KV}', '-DH_OPS=(P_SET|P_APP|P_ARITH|P_DEL)'], thorough_defs=['-DH_N=4'], reach=['end'], time=100, bounds='3 (thorough 4) key-value operations on three keys in two prefixes, sticky and not'),
  Job('flush', H, ENG, ['-DH_KEYS={"a:x","b"}', '-DH_N=3', '-DH_KIND={KV,MAP,BTREE}', '-DH_OPS=(P_SET|P_DEL|P_PUT|P_FLUSH|P_FLUSHP|P_TIME)', '-DH_EXPIRE', '-DH_VL={3}', '-DH_NEL=1'], thorough_defs=['-DH_N=4'], reach=['end', 'flush', 'time'], time=100, bounds='3 (thorough 4) operations with flushes and expiry'),
  Job('list', H, ENG, ['-DH_KEYS={"a:x"}', '-DH_N=3', '-DH_KIND={LIST}', OPS], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'getdel'], time=100, bounds='3 (thorough 4) list operations'),
  Job('set', H, ENG, ['-DH_KEYS={"a:x"}', '-DH_N=3', '-DH_KIND={SET}', OPS, '-DH_NEL=3'], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'getdel'], time=100, bounds='3 (thorough 4) set operations'),
  Job('map', H, ENG, ['-DH_KEYS={"a:x"}', '-DH_N=3', '-DH_KIND={MAP}', OPS], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'getdel', 'update'], time=100, bounds='3 (thorough 4) map operations'),
  Job('btree', H, ENG, ['-DH_KEYS={"a:x"}', '-DH_N=3', '-DH_KIND={BTREE}', OPS, '-DH_NEL=3'], thorough_defs=['-DH_N=4'], reach=['end', 'put', 'removed', 'getdel', 'update'], time=100, bounds='3 (thorough 4) b+tree operations'),
  Job('types', H, ENG, ['-DH_KEYS={"a:x","arcus:y"}', '-DH_N=3', '-DH_KIND={LIST,SET,MAP,BTREE}', '-DH_NEL=1', '-DH_VL={3}', '-DH_OPS=(P_SET|P_PUT|P_DEL|P_SETATTR)'], reach=['end', 'put'], time=100, bounds='3 operations mixing all types, two prefixes (one of them internal)'),
  Job('trim', H, ENG, ['-DH_KEYS={"a:x","b"}', '-DH_N=2', '-DH_PRE=4', '-DH_MAXC=3', '-DH_STICKY=0', '-DH_KIND={LIST,BTREE}', OPS, '-DH_NEL=5', '-DH_VL={3}'], reach=['end', 'put', 'removed', 'getdel', 'update'], time=100, bounds='2 operations on lists and b+trees that overflow their maximum count'),
  Job('nodes', H, ENG, ['-DH_KEYS={"a:x"}', '-DH_N=2', '-DH_STICKY=0', '-DH_PRE=24', '-DVERIF_BTREE_ITEM_COUNT=4', '-DH_WRAP=0x1111', '-DH_KIND={SET,MAP,BTREE}', OPS, '-DH_NEL=25', '-DH_ELS={0,3,11,12,23,24}', '-DH_VL={3}'] + W, reach=['end', 'put', 'removed', 'getdel', 'update'], time=100, bounds='2 operations on collections of 24 elements with several nodes (b+tree nodes of 4 entries; colliding element hashes)'),
], 'After every history curr_items, bytes, sticky_items, sticky_bytes, the prefix counts/bytes by type and the number of prefixes equal what is stored; bytes are taken from the allocator.', assumptions=['all blocks come from the small-memory manager (below 48 KB), whose accounting C15 checks'])
