from vlib import Check, Job, ENG
R = ['end', 'ins', 'fwd', 'bwd', 'none', 'oor', 'headtrim', 'tailtrim', 'overflow', 'del', 'getdel', 'dropped']
check = Check('C05', [
  Job('hist', 'harness/list.c', ENG, ['-DH_N=2', '-DH_PRE=3'], reach=R, time=120, bounds='lists of 0..3 elements with maximum count 1..3 and every overflow policy, then 2 operations (thorough 3) out of insert at any 32-bit index, delete, get and get-with-delete over any 32-bit index pair', thorough_defs=['-UH_N', '-DH_N=3']),
  Job('long', 'harness/list.c', ENG, ['-DH_N=1', '-DH_PRE=8', '-DH_CAP=12', '-DH_MC={0,8}', '-DH_OV={OVFL_HEAD_TRIM,OVFL_TAIL_TRIM}', '-DH_PRES={5,8}'], reach=['end', 'ins', 'fwd', 'bwd', 'none', 'oor', 'headtrim', 'tailtrim', 'del', 'getdel'], time=100, bounds='lists of 5 and 8 elements (thorough also 6, 7 and 11), maximum count default or 8, one operation with any 32-bit indices', thorough_defs=['-UH_PRES', '-DH_PRES={4,5,6,7,8,11}', '-UH_CAP', '-DH_CAP=14']),
  Job('life', 'harness/list.c', ENG, ['-DH_N=3', '-DH_OPS=(L_INS|L_INSNEW|L_CREATE|L_KV|L_DEL|L_GETDEL)', '-DH_UNREAD', '-DH_MC={1,-1}', '-DH_OV={0,OVFL_ERROR}'], reach=['end', 'insnew', 'ins', 'unreadable', 'dropped', 'del'], time=120, bounds='3 operations (thorough 4) from an empty cache: create (readable or not), insert with and without creating, key-value set on the same key, delete, get-with-delete', thorough_defs=['-UH_N', '-DH_N=4']),
], 'lists of up to 8 (thorough 11) elements and histories of up to 3 (thorough 4) operations with unrestricted 32-bit indices')
