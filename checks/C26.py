from vlib import Check, Job, VERIF
H = 'harness/opstats.c'
M = ['-Dmalloc=h_malloc', '-Dcalloc=h_calloc']
def P(name, mode, defs=(), **k): return Job(name, H, ['stats_prefix.c', 'util.c'], ['-DH_MODE=%d' % mode] + M + list(defs), time=100, **k)
def T(name, mode, defs=(), **k): return Job(name, H, ['topkeys.c', 'genhash.c'], ['-DH_MODE=%d' % mode, '-include', VERIF + '/harness/wrap_hash.h', '-DH_WRAPSELF'] + list(defs), time=100, **k)
check = Check('C26', [
  P('ops', 0, reach=['end'], bounds='every pair of the 62 recorded operation kinds, over keys with shared and different prefixes'),
  P('keys', 1, ['-DH_STEPS=2', '-DH_KLEN=3'], thorough_defs=['-DH_KLEN=4'], reach=['end', 'illegal prefix'], bounds='two operations on keys of up to 3 (thorough 4) arbitrary bytes'),
  P('history', 2, ['-DH_STEPS=3', '-DH_OPS=11'], thorough_defs=['-DH_STEPS=4'], thorough_time=600, reach=['end', 'deleted', 'selected', 'illegal prefix'], bounds='histories of 3 (thorough 4) operations, prefix inserts and deletes, clears and selective dumps; prefix hashes free over two buckets'),
  P('oom', 2, ['-DH_STEPS=2', '-DH_OPS=11', '-DH_OOM=7'], thorough_defs=['-DH_STEPS=3'], thorough_time=400, reach=['end', 'deleted', 'selected', 'oom'], bounds='histories of 2 (thorough 3) steps with the n-th allocation failing'),
  P('full', 3, reach=['end', 'full'], bounds='3 steps around the limit of 10000 prefixes'),
  T('hotkeys', 10, ['-DH_STEPS=6', '-DH_MAX=3', '-DH_NK=4'], thorough_defs=['-DH_STEPS=7', '-DH_NK=5'], thorough_time=600, reach=['end', 'pushed out'], bounds='6 (thorough 7) uses of 4 (5) keys, 1-3 tracked keys, key hashes free over two buckets'),
  T('bignum', 11, reach=['end'], bounds='counters and times of 1 to 10 digits'),
  T('map', 12, ['-DH_STEPS=4', '-DH_OPS=6'], thorough_defs=['-DH_STEPS=5'], thorough_time=600, reach=['end', 'modified', 'several'], bounds='4 (5) operations on 3 keys, two possible hash values, one of them negative'),
], 'stats_prefix.c, topkeys.c and genhash.c; the hash value of every prefix or key is an input; the oracle keeps its own counters and compares the whole dump text.')
