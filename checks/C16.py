from vlib import Check, Job, ENG
H = 'harness/evict.c'; SRC = [s for s in ENG if not s.endswith('/slabs.c')]
def J(name, defs, **k): return Job(name, H, SRC, defs, extra=['harness/slabs_stub.c'], time=100, **k)
check = Check('C16', [
  J('base', ['-DH_N=2', '-DH_OPS=(P_SET|P_GET|P_HOLD|P_REL|P_TIME)'], thorough_defs=['-DH_N=3'], reach=['end', 'evicted', 'held'], bounds='3 items stored with any stickiness and expiry, then 2 (thorough 3) operations'),
  J('hold', ['-DH_KEYS={"a","b","c"}', '-DH_N=4', '-DH_PRE=2', '-DH_ROOM=2', '-DH_ATTR=1', '-DH_OPS=(P_SET|P_GET|P_HOLD|P_REL|P_DEL|P_SHORT)'], thorough_defs=['-DH_N=5'], reach=['end', 'evicted', 'held', 'enomem'], bounds='4 (thorough 5) operations with references held and shortage levels 0-2'),
  J('big', ['-DH_N=2', '-DH_PRE=3', '-DH_ROOM=1', '-DH_BIG=1', '-DH_ATTR=2', '-DH_OPS=(P_SET|P_HOLD|P_TIME)'], thorough_defs=['-DH_N=3'], reach=['end', 'evicted', 'enomem'], bounds='small and large items (a recency list each)'),
  J('coll', ['-DH_KEYS={"a","b","c"}', '-DH_N=2', '-DH_PRE=2', '-DH_ROOM=2', '-DH_OPS=(P_SET|P_PUT|P_SETATTR|P_HOLD)'], thorough_defs=['-DH_N=3'], reach=['end', 'evicted'], bounds='items and lists'),
  J('expire', ['-DH_KEYS={"a","b","c"}', '-DH_N=3', '-DH_PRE=2', '-DH_ROOM=2', '-DH_OPS=(P_SET|P_TIME|P_SETATTR|P_GET)'], thorough_defs=['-DH_N=4'], reach=['end', 'evicted', 'reclaimed'], bounds='3 (thorough 4) operations with expiry'),
  J('expire4', ['-DH_N=3', '-DH_PRE=4', '-DH_ROOM=4', '-DH_ATTR=2', '-DH_GAP=1', '-DH_OPS=(P_SET|P_TIME|P_DEL)'], thorough_defs=['-DH_N=4'], reach=['end', 'evicted', 'reclaimed'], bounds='the same with 4 items'),
  J('off', ['-DH_N=3', '-DH_PRE=2', '-DH_ROOM=2', '-DH_EVICT=0', '-DH_KEYS={"a","b","c"}', '-DH_OPS=(P_SET|P_GET|P_REL|P_HOLD|P_TIME)'], thorough_defs=['-DH_N=4'], reach=['end', 'enomem', 'reclaimed'], bounds='eviction switched off'),
  J('sticky', ['-DH_N=2', '-DH_PRE=3', '-DH_ROOM=4', '-DH_SLIMIT=150', '-DH_OPS=(P_SET|P_DEL|P_TIME)'], thorough_defs=['-DH_N=3'], reach=['end', 'sticky refused'], bounds='a sticky limit reached in the history'),
  J('flush', ['-DH_N=3', '-DH_PRE=2', '-DH_ROOM=2', '-DH_KEYS={"a","b","c"}', '-DH_OPS=(P_SET|P_FLUSH|P_TIME|P_HOLD)'], thorough_defs=['-DH_N=4'], reach=['end', 'flushed', 'evicted'], bounds='flushes under memory pressure'),
  J('flush4', ['-DH_N=4', '-DH_PRE=2', '-DH_ROOM=2', '-DH_ATTR=1', '-DH_KEYS={"a","b"}', '-DH_ROOM=1', '-DH_OPS=(P_SET|P_FLUSH|P_HOLD|P_REL)'], thorough_defs=['-DH_N=5'], reach=['end', 'flushed', 'evicted'], bounds='4 (thorough 5) operations with flushes and references'),
], 'Under a memory limit: which items leave the recency order after every operation (read with cachedump), against a model of what is stored, referenced, sticky, expired and flushed; the order itself; the evictions and out-of-memory statistics; ENOMEM only when nothing can be evicted; nothing evicted when eviction is off.', assumptions=['the slab allocator keeps its contract (C15), replaced by one with an exact byte limit', 'no reference is held longer than three hours (the engine takes back such items by design)'])
