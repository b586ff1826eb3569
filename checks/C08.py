from vlib import Check, Job, ENG
T4 = ['-DVERIF_BTREE_ITEM_COUNT=4']
H = 'harness/btree.c'
R = ['end', 'ins', 'replaced', 'asc', 'desc', 'single', 'del', 'getdel', 'dropped', 'count', 'upd']
ACC = '-DH_OPS=(B_INS|B_UPSERT|B_DEL|B_GET|B_GETDEL|B_COUNT)'
check = Check('C08', [
  Job('hist', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_PRES={0,2}', '-DH_SYMPRE'], reach=R, time=90, bounds='all 2-step histories over insert/upsert/get/get+delete/delete/count/update on a b+tree of 0 or 2 elements; every 64-bit bkey and range end is arbitrary'),
  Job('mix', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_PRES={0,1}', '-DH_SYMPRE', '-DH_MIX', '-DH_BINLEN=1', ACC], reach=['badbkey', 'end'], time=90, bounds='64-bit and 1-byte binary bkeys mixed freely over 2 steps'),
  Job('bin', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={2}', '-DH_SYMPRE', '-DH_BIN', ACC], reach=['end', 'asc', 'desc', 'single', 'del'], time=120, bounds='binary bkeys of 1-2 arbitrary bytes, 2 elements, 1 step'),
  Job('binlong', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={1}', '-DH_SYMPRE', '-DH_BIN', '-DH_BINLEN=31', '-DH_BINSPAN', ACC], reach=['end'], time=90, bounds='31-byte binary bkeys, first and last byte symbolic'),
  Job('count', H, ENG, T4 + ['-DH_MK', '-DH_N=1', '-DH_PRES={7}', '-DH_ORDERS={2}', '-DH_GETC={0,1,3}', '-DH_DELC={0,1,3}', '-DH_OPS=(B_DEL|B_GET|B_GETDEL)'], reach=['end', 'asc', 'desc'], time=90, bounds='7 elements over two levels, offset 0-2, count 0/1/3, arbitrary 64-bit range'),
  Job('filter', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_SEQ={B_INS,B_GET|B_DEL|B_COUNT|B_UPD}', '-DH_FILTER=2', '-DH_EFL=2', '-DH_WIN={{5,5}}'], reach=['end', 'badeflag'], time=90, bounds='one element with 0-2 arbitrary flag bytes; every filter shape: offset 0-2, length 1-2, 6 comparisons, 1-2 values, 3 bitwise operators, all operands arbitrary; every bitwise/replacing flag update'),
  Job('filters', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={6}', '-DH_PEFL=2', '-DH_FILTER=1', '-DH_EFL=2', '-DH_GETC={0,2}', '-DH_DELC={0,2}', '-DH_OPS=(B_DEL|B_GET|B_GETDEL|B_COUNT)', '-DH_WIN={{5,75}}'], reach=['end'], time=90, bounds='filter combined with range, offset and count over 6 elements'),
  Job('tree', H, ENG, T4 + ['-DH_MK', '-DH_N=1', '-DH_PRES={20}', '-DH_ORDERS={0,1,2,3}', '-DH_OPS=(B_INS|B_DEL|B_GET|B_GETDEL)'], reach=['end', 'del', 'ins'], time=150, bounds='nodes of 4 entries (hook), 20 elements preloaded in four orders (three levels), then one operation with arbitrary 64-bit bkeys; contents, both scan directions and all positions verified'),
  Job('tree2', H, ENG, T4 + ['-DH_MK', '-DH_N=2', '-DH_PRES={11}', '-DH_ORDERS={3}', '-DH_SEQ={B_DEL,B_INS|B_DEL}', '-DH_WIN={{9,11},{39,41},{78,82}}'], reach=['end', 'del', 'ins'], time=150, thorough_defs=['-UH_PRES', '-DH_PRES={12}', '-UH_ORDERS', '-DH_ORDERS={0,3}', '-UH_WIN', '-DH_WIN={{9,131}}'], bounds='a range deletion, then an insertion or deletion, on a tree of 11 elements with nodes of 4 entries, bkeys near existing ones'),
  Job('node32', H, ENG, ['-DH_MK', '-DH_CAP=80', '-DH_N=1', '-DH_PRES={33}', '-DH_ORDERS={0,3}', '-DH_OPS=(B_INS|B_DEL)', '-DH_VERIFY=1'], reach=['end', 'del', 'ins'], time=150, thorough_defs=['-UH_PRES', '-DH_PRES={33,66}', '-UH_ORDERS', '-DH_ORDERS={0,1,3}'], bounds='the unchanged node size of 32: 33 elements in two insertion orders, one insertion or range deletion with arbitrary bkeys'),
  Job('life', H, ENG, ['-DH_N=3', '-DH_WIN={{5,6}}', '-DH_OPS=(B_INS|B_INSNEW|B_CREATE|B_KV|B_GET|B_DELALL)', '-DH_UNREAD'], reach=['end', 'unreadable', 'dropped'], time=90, bounds='creation, implicit creation, item of another type, unreadable collections: all 3-step histories'),
  Job('arith', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_VALS={"7","9","18446744073709551615","","x","1x"}', '-DH_EFL=1', '-DH_SEQ={B_INS,B_ARITH}', '-DH_WIN={{5,6}}'], reach=['arith', 'arith-create', 'arith-nan', 'end'], time=90, bounds='increment/decrement of elements: value and delta boundary cases, creation with initial value and flag'),
], 'Histories of 1-3 operations from empty or preloaded b+trees; see each job.', assumptions=['node size 4 in the jobs marked (hook) instead of 32, so that several levels are reached', 'single thread: the engine serialises collection operations with one cache lock'])
