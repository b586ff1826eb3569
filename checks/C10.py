from vlib import Check, Job, ENG
T4 = ['-DVERIF_BTREE_ITEM_COUNT=4']
H = 'harness/btree.c'
OV = '-DH_OV={OVFL_ERROR,OVFL_SMALLEST_TRIM,OVFL_LARGEST_TRIM,OVFL_SMALLEST_SILENT_TRIM,OVFL_LARGEST_SILENT_TRIM}'
INS = '-DH_OPS=(B_INS|B_UPSERT|B_GET)'
R = ['end', 'overflow', 'oor', 'trim']
check = Check('C10', [
  Job('ovfl', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_PRES={1,2}', '-DH_SYMPRE', '-DH_MC={2}', OV, '-DH_GETRIM', INS], reach=R + ['get-oor', 'get-trimmed'], time=90, thorough_defs=['-UH_N', '-DH_N=3'], bounds='maximum of 2 elements, every overflow action, 2 steps of insert (with trim report) / upsert / get, every 64-bit bkey and range arbitrary'),
  Job('range', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={1,2}', '-DH_SYMPRE', '-DH_MC={2}', OV, '-DH_MBR', '-DH_GETRIM', '-DH_OPS=(B_INS|B_UPSERT)'], reach=['end', 'mbr', 'range-refused', 'range-trim', 'trim'], time=120, bounds='arbitrary maximum bkey range, 1 or 2 elements with arbitrary bkeys, one insert'),
  Job('range2', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_PRES={1}', '-DH_WIN={{10,30}}', OV, '-DH_MBR', '-DH_OPS=(B_INS)'], reach=['end', 'range-refused', 'range-trim'], time=90, bounds='two inserts around one element under a maximum bkey range'),
  Job('rangebin2', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={1}', '-DH_SYMPRE', '-DH_BIN', '-DH_BINLEN=2', OV, '-DH_MBR', '-DH_OPS=(B_INS)'], reach=['end', 'mbr', 'range-refused'], time=120, bounds='2-byte binary bkeys and maximum range, one element'),
  Job('rangebin', H, ENG, ['-DH_MK', '-DH_N=1', '-DH_PRES={2}', '-DH_SYMPRE', '-DH_BIN', '-DH_BINLEN=1', OV, '-DH_MBR', '-DH_OPS=(B_INS)'], reach=['end', 'mbr', 'range-refused', 'range-trim'], time=120, bounds='1-byte binary bkeys and maximum range'),
  Job('flag', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_PRES={3}', '-DH_MC={3}', OV, '-DH_GETC={0,1,2}', '-DH_SEQ={B_INS|B_DEL,B_GET}', '-DH_WIN={{5,35}}'], reach=['end', 'trim', 'get-trimmed', 'get-oor'], time=120, bounds='the trimmed flag of a get after a trim, for every range, offset 0-2 and count 0-2'),
  Job('attr', H, ENG, ['-DH_MK', '-DH_N=2', '-DH_PRES={0,2}', '-DH_MC={2}', OV, '-DH_SEQ={B_ATTR,B_INS|B_ATTR|B_UPSERT}', '-DH_WIN={{5,40}}'], reach=['end', 'setmax', 'setovfl', 'setmbr', 'mbr-refused'], time=120, bounds='attribute changes (maxcount, overflowaction, maxbkeyrange) followed by an insert or another change'),
  Job('tree', H, ENG, T4 + ['-DH_MK', '-DH_N=1', '-DH_PRES={17}', '-DH_ORDERS={0,1,3}', '-DH_MC={17}', OV, '-DH_GETRIM', '-DH_OPS=(B_INS)'], reach=['end'] + R[1:], time=120, bounds='trimming the end of a three-level tree (nodes of 4, hook)'),
  Job('treerange', H, ENG, T4 + ['-DH_MK', '-DH_N=1', '-DH_PRES={12}', '-DH_ORDERS={0,3}', OV, '-DH_MBR', '-DH_WIN={{0,300}}', '-DH_OPS=(B_INS)'], reach=['end', 'range-trim', 'range-refused'], time=120, bounds='range trimming across several nodes'),
], 'Maximum element count, overflow actions, trimmed flag, trim reports and maximum bkey range, for b+trees; list/set/map overflow is covered by C05-C07.', assumptions=['binary bkeys of mixed lengths under a maximum bkey range are outside the bounds', 'node size 4 in the jobs marked (hook)'])
