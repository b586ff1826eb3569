from vlib import Check, Job, ENG, VERIF
W = ['-include', VERIF + '/harness/wrap_hash.h', '-DH_WRAPSELF', '-DH_MAP']
R = ['end', 'ins', 'exists', 'del', 'get', 'getdel', 'upd', 'replaced']
check = Check('C07', [
  Job('hist', 'harness/hcoll.c', ENG, W + ['-DH_MK', '-DH_N=2', '-DH_X=2', '-DH_SYMV'], reach=['end', 'ins', 'upd'], time=60, bounds='2 operations (thorough 3) out of insert/upsert/update/delete/get/get-with-delete (lists of up to 3 fields, repetitions included) on an empty map; 2 fields of 1..2 arbitrary bytes whose hashes collide, values of 1 or 61 equal arbitrary bytes', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('two', 'harness/hcoll.c', ENG, W + ['-DH_MK', '-DH_N=2', '-DH_X=2', '-DH_SYMV', '-DH_FILL=2'], reach=R, time=60, bounds='the same on maps of 1..2 fields', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('life', 'harness/hcoll.c', ENG, W + ['-DH_N=3', '-DH_X=2', '-DH_SYMV', '-DH_UNREAD', '-DH_MC={1,-1}', '-DH_OPS=(S_INS|S_INSNEW|S_CREATE|S_KV|S_DELALL|S_UPSERT)'], reach=['end', 'ins', 'overflow', 'dropped'], time=60, bounds='3 operations (thorough 4) from an empty cache: create, insert/upsert with/without creating, key-value set on the same key, delete all', thorough_defs=['-UH_N', '-DH_N=4']),
  Job('split', 'harness/hcoll.c', ENG, W + ['-DH_PRE=66', '-DH_PRES={63,64,66}', '-DH_HM=1', '-DH_N=2', '-DH_X=2', '-DH_LOW=0xf', '-DH_CONC=0xf0', '-DH_FEW'], reach=['end', 'ins', 'exists', 'del', 'get', 'getdel'], time=60, bounds='63, 64 or 66 fields in one hash chain (node split), then 2 operations (thorough 3)', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('merge', 'harness/hcoll.c', ENG, W + ['-DH_PRE=66', '-DH_PRES={66}', '-DH_DELPRE=35', '-DH_DELS={33,34,35}', '-DH_HM=1', '-DH_N=2', '-DH_X=2', '-DH_LOW=0xf', '-DH_CONC=0xf0', '-DH_FEW'], reach=['end', 'ins', 'exists', 'del', 'get', 'getdel'], time=60, bounds='66 fields split over two levels, 33..35 deleted so that the next deletions merge the node, then 2 operations (thorough 3)', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('deep', 'harness/hcoll.c', ENG, W + ['-DH_PRE=74', '-DH_HM=3', '-DH_N=2', '-DH_X=2', '-DH_LOW=0xfffffff', '-DH_CONC=0xf0000000', '-DH_FEW'], reach=['end', 'ins', 'exists', 'del', 'get', 'getdel'], time=60, bounds='74 fields agreeing in the low 28 hash bits, any top nibble for the operated fields, 2 operations (thorough 3)', thorough_defs=['-UH_N', '-DH_N=3']),
], 'maps shaped by preloading 0..74 fields with chosen hashes, histories of 1..4 operations with arbitrary field bytes, hashes and values')
