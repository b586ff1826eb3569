from vlib import Check, Job, ENG
R = ['hit', 'miss', 'coll', 'attach', 'end']
check = Check('C01', [
  Job('kv', 'harness/kv.c', ENG, ['-DH_N=3'], reach=R, time=60, bounds='3 operations (thorough 4) out of set/add/replace/append/prepend/delete/get/collection create on keys "a" and "a:b", values of 0..2 arbitrary bytes, every 32-bit flags', thorough_defs=['-UH_N', '-DH_N=4']),
  Job('keys', 'harness/kv.c', ENG, ['-DH_N=2', '-DH_KEYSYM', '-DH_HASH=1'], reach=R + ['badname'], time=60, bounds='2 operations (thorough 3) on two distinct keys of 1..2 arbitrary printable bytes whose hashes all collide', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('sizes', 'harness/kvsize.c', ENG, [], reach=['end', 'attach'], time=60, bounds='values around every slab class size border (lengths border-3..border+3), first/last bytes symbolic, then append/prepend across the border'),
], 'histories of up to 3 (thorough 4) key-value operations on two keys, keys symbolic with colliding hashes in a second job, value lengths around allocator class borders in a third')
