from vlib import Check, Job, ENG, VERIF
W = ['-include', VERIF + '/harness/wrap_hash.h', '-DH_WRAPSELF']
R = ['end', 'ins', 'exists', 'del', 'getdel', 'all', 'some']
check = Check('C06', [
  Job('hist', 'harness/hcoll.c', ENG, W + ['-DH_MK', '-DH_N=3', '-DH_RAND', '-DH_X=2', '-DH_SYMV'], reach=R, time=60, bounds='3 operations (thorough 4) out of insert/delete/exist/get with any 32-bit count/get-with-delete on an empty set; 2 elements of 1..2 arbitrary bytes whose hashes collide; random numbers arbitrary', thorough_defs=['-UH_N', '-DH_N=4']),
  Job('rand', 'harness/hcoll.c', ENG, W + ['-DH_PRE=4', '-DH_N=1', '-DH_RAND', '-DH_RANDMAX=10', '-DH_X=1', '-DH_OPS=(S_GET|S_GETDEL)'], reach=['end', 'getdel', 'all', 'some'], time=60, bounds='random get / get-with-delete of any count from a set of 4, every outcome of rand()', thorough_defs=['-UH_N', '-DH_N=2', '-UH_PRE', '-DH_PRE=5']),
  Job('offset', 'harness/hcoll.c', ENG, W + ['-DH_PRE=21', '-DH_N=1', '-DH_RAND', '-DH_RANDMAX=4', '-DH_X=1', '-DH_OPS=(S_GET|S_GETDEL)', '-DH_COUNTS={1,2}'], reach=['end', 'getdel', 'some'], time=60, bounds='random get / get-with-delete of 1..2 out of 21 (the offset-table path), every outcome of up to 4 rand() calls'),
  Job('life', 'harness/hcoll.c', ENG, W + ['-DH_N=3', '-DH_X=2', '-DH_SYMV', '-DH_UNREAD', '-DH_MC={1,-1}', '-DH_OPS=(S_INS|S_INSNEW|S_CREATE|S_KV|S_DEL|S_GETDEL)', '-DH_COUNTS={0,1}'], reach=['end', 'ins', 'overflow', 'unreadable', 'dropped'], time=60, bounds='3 operations (thorough 4) from an empty cache: create (readable or not, maximum 1), insert with/without creating, key-value set on the same key, delete, get-with-delete', thorough_defs=['-UH_N', '-DH_N=4']),
  Job('split', 'harness/hcoll.c', ENG, W + ['-DH_PRE=66', '-DH_PRES={63,64,66}', '-DH_HM=1', '-DH_N=2', '-DH_X=2', '-DH_LOW=0xf', '-DH_CONC=0xf0', '-DH_COUNTS={0,1,65}'], reach=R, time=60, bounds='63, 64 or 66 elements in one hash chain (node split), then 2 operations (thorough 3) with elements hashing to the same chain and any second-level bucket', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('merge', 'harness/hcoll.c', ENG, W + ['-DH_PRE=66', '-DH_PRES={66}', '-DH_DELPRE=35', '-DH_DELS={33,34,35}', '-DH_HM=1', '-DH_N=2', '-DH_X=2', '-DH_LOW=0xf', '-DH_CONC=0xf0', '-DH_COUNTS={0,1,31}'], reach=R, time=60, bounds='66 elements split over two levels, 33..35 deleted so that the next deletions merge the node, then 2 operations (thorough 3)', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('deep', 'harness/hcoll.c', ENG, W + ['-DH_PRE=74', '-DH_HM=3', '-DH_N=2', '-DH_X=2', '-DH_LOW=0xfffffff', '-DH_CONC=0xf0000000', '-DH_COUNTS={0,1}'], reach=R, time=60, bounds='74 elements agreeing in the low 28 hash bits (tree of depth 8+), any top nibble for the operated elements, 2 operations (thorough 3)', thorough_defs=['-UH_N', '-DH_N=3']),
], 'sets shaped by preloading 0..74 elements with chosen hashes, histories of 1..4 operations with arbitrary element bytes, hashes, counts and random numbers')
